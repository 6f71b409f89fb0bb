INIT TInit
NEXT TNext
CONSTANT Addrs = {"m1:1", "m2:2", "m3:3"}
CONSTANT Limit = 2
CONSTANT Pause = 3000
CONSTANT Timeout = 7000
CONSTRAINT Mark
ACTION_CONSTRAINT Open
POSTCONDITION Report
CHECK_DEADLOCK FALSE
