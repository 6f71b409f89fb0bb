SPECIFICATION Spec
CONSTANT Threads = {1, 2, 3}
CONSTANT Max = 3
CONSTRAINT Bound
INVARIANT TypeOK
INVARIANT CountOK
INVARIANT OneCompletion
PROPERTY NoEarly
PROPERTY NoLost
CHECK_DEADLOCK FALSE
