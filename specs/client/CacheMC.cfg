INIT MInit
NEXT MNext
INVARIANT Follow Tellable Loaded
PROPERTY Whole_
CHECK_DEADLOCK FALSE
CONSTANT Most = 3
CONSTANT Full = FALSE
