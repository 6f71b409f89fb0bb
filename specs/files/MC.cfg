INIT Init
NEXT Next
INVARIANT IsClosed
INVARIANT MakeDirMakes
INVARIANT RemoveExact
INVARIANT RenameMoves
CHECK_DEADLOCK FALSE
CONSTANT Depth = 2
CONSTRAINT Small
