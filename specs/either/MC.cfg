INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
INVARIANT LiveOK
CHECK_DEADLOCK FALSE
