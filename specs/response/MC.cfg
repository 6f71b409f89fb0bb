INIT Init
NEXT Next
CONSTANT Fields <- Types
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT EqOK
CHECK_DEADLOCK FALSE
