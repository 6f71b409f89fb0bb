INIT MInit
NEXT MNext
CONSTANT Nap = 500
CONSTANT Timeout = 9000
CONSTANT Methods = {"get", "scanVertex", "forwardTransaction", "lookupIndex"}
CONSTANT Most = 3
INVARIANT Calls3
INVARIANT Once
INVARIANT Known
INVARIANT Own
CHECK_DEADLOCK FALSE
