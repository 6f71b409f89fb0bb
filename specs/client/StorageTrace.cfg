INIT TInit
NEXT TNext
CONSTRAINT Mark
ACTION_CONSTRAINT Open
POSTCONDITION Report
CHECK_DEADLOCK FALSE
CONSTANT Nap = 500
CONSTANT Timeout = 9000
