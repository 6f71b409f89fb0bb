INIT TInit
NEXT TNext
CONSTANT Threads = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
CONSTANT Max = 1000
CONSTRAINT Mark
ACTION_CONSTRAINT Open
POSTCONDITION Report
CHECK_DEADLOCK FALSE
