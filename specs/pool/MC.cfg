SPECIFICATION Spec
CONSTANT Threads = {1, 2}
CONSTANT Objs = {1, 2, 3, 4}
INVARIANT OnceOnly
PROPERTY NoLoss
CHECK_DEADLOCK FALSE
