INIT GInit
NEXT GNext
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY Grow
CHECK_DEADLOCK FALSE
CONSTANT Pieces <- Pc
