SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT LiveOK
PROPERTY OnlyNamed
PROPERTY MoveConserves
CHECK_DEADLOCK FALSE
