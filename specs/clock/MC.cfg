INIT Init
NEXT Next
CONSTANT MaxS = 2
CONSTANT Steps <- St
INVARIANT Bounded
PROPERTY Steady
CHECK_DEADLOCK FALSE
