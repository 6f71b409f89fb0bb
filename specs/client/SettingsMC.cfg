INIT MInit
NEXT MNext
INVARIANTS InForce Fixed First Behind Told
CHECK_DEADLOCK FALSE
CONSTANT Most = 4
