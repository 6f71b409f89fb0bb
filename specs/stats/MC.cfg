SPECIFICATION Spec
INVARIANTS Wider Within Ids AllListed
PROPERTY Kept
CHECK_DEADLOCK FALSE
