INIT Init
NEXT Next
CONSTANT First <- Fs
INVARIANT Agree
INVARIANT Epoch
CHECK_DEADLOCK FALSE
