INIT Init
NEXT Next
CONSTANTS
  Clients = {c1, c2}
  NTasks = 2
  Together = TRUE
INVARIANTS Fifo NothingWaits PurgedIsGone Drained
CHECK_DEADLOCK FALSE
