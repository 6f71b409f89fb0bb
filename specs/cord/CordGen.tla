------------------------------ MODULE CordGen ------------------------------
EXTENDS Cord, Json
CONSTANTS MaxLen, Pieces
VARIABLE ev
GInit == CInit /\ ev = [op |-> "init"]
GNext == \/ \E c \in Cords, s \in Pieces : Write(c, s) /\ ev' = [op |-> "write", c |-> c, s |-> s]
         \/ \E d, s \in Cords : AppendCord(d, s) /\ ev' = [op |-> "append", c |-> d, s |-> s]
         \/ \E c \in Cords : Clear(c) /\ ev' = [op |-> "clear", c |-> c]
Small == \A c \in Cords : Len(cont'[c]) <= MaxLen
Pc == {<<>>, <<1>>, <<2, 1>>, <<2, 2, 1>>}
View == cont
Emit == Small /\ PrintT("@T " \o ToJson(<<cont, ev', cont'>>))
TypeOK == cont \in [Cords -> Seq(0..255)]
\* only the named cord changes, and only by growing or being cleared
Grow == [][\A c \in Cords : cont'[c] # cont[c] => ev'.c = c /\ (ev'.op = "clear" \/ IsPrefix(cont[c], cont'[c]))]_<<cont, ev>>
=============================================================================
