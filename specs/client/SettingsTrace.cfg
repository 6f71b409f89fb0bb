INIT TInit
NEXT TNext
CONSTRAINT Mark
ACTION_CONSTRAINT Open
POSTCONDITION Report
CHECK_DEADLOCK FALSE

