INIT Init
NEXT Next
INVARIANT TypeOK
PROPERTY Conserve
CHECK_DEADLOCK FALSE
