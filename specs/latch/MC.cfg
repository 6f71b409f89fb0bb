SPECIFICATION Spec
CONSTANT Threads = {1, 2, 3}
CONSTANT Max = 3
INVARIANT TypeOK
INVARIANT BlockedOK
PROPERTY OneShot
PROPERTY NoEarlyRelease
PROPERTY NoLostWakeup
CHECK_DEADLOCK FALSE
