INIT MInit
NEXT MNext
CONSTANT Addrs = {"m1", "m2"}
CONSTANT Limit = 2
CONSTANT Pause = 3
CONSTANT Timeout = 7
INVARIANT TypeOK
INVARIANT Bounded
CONSTRAINT Short
CHECK_DEADLOCK FALSE
