INIT Init
NEXT Next
VIEW View
INVARIANT TypeOK
INVARIANT WithinCapacity
PROPERTY OnlyOldest
PROPERTY UsedIsFirst
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
