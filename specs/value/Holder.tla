------------------------------- MODULE Holder -------------------------------
(* A value as a container: what every construction, assignment, setter, exchange
   and removal leaves in it.  The content of a slot is its kind and one of a few
   variants; holding a compound it has a part, itself a value. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots,            \* of {1, 2}
          Hows,             \* ways to put a content into a value
          KindsUsed
Kinds == {"NULL", "BOOL", "INT", "FLOAT", "STRING", "DATE", "TIME", "DATETIME", "VERTEX", "EDGE", "PATH", "LIST", "MAP", "SET", "DATASET"}
ASSUME KindsUsed \subseteq Kinds
Variants(k) == IF k = "NULL" THEN 0..7 ELSE 1..2
E == [k |-> "EMPTY", v |-> 0]
C(k, v) == [k |-> k, v |-> v]
Contents == {E} \cup UNION {{C(k, v) : v \in Variants(k)} : k \in KindsUsed}
\* what compounds have inside (variant 1: the text 1, variant 2: the list 2)
Compound == {"VERTEX", "EDGE", "PATH", "LIST", "MAP", "SET", "DATASET"}
Part(c) == IF c.v = 1 THEN C("STRING", 1) ELSE C("LIST", 2)
HasPart(c) == c.k \in Compound /\ Part(c) # c
\* a part that can be moved from (a set's elements cannot be changed)
HasLoosePart(c) == HasPart(c) /\ c.k # "SET"
TypeName(c) == CASE c.k = "EMPTY" -> "__EMPTY__" [] c.k = "BOOL" -> "bool" [] c.k = "INT" -> "int" [] c.k = "FLOAT" -> "float" [] c.k = "STRING" -> "string"
                 [] c.k = "DATE" -> "date" [] c.k = "TIME" -> "time" [] c.k = "DATETIME" -> "datetime" [] c.k = "VERTEX" -> "vertex" [] c.k = "EDGE" -> "edge"
                 [] c.k = "PATH" -> "path" [] c.k = "LIST" -> "list" [] c.k = "MAP" -> "map" [] c.k = "SET" -> "set" [] c.k = "DATASET" -> "dataset"
                 [] c.k = "NULL" -> <<"__NULL__", "NaN", "BAD_DATA", "BAD_TYPE", "ERR_OVERFLOW", "UNKNOWN_PROP", "DIV_BY_ZERO", "OUT_OF_RANGE">>[c.v + 1]
BadNull(c) == c.k = "NULL" /\ c.v # 0
Obs(c) == [k |-> c.k, v |-> c.v, name |-> TypeName(c), bad |-> BadNull(c), numeric |-> c.k \in {"INT", "FLOAT"}]
VARIABLES slot, act
vars == <<slot, act>>
Put(d, c) == slot' = [slot EXCEPT ![d] = c]
Set(d, c, how) == c # E /\ Put(d, c) /\ act' = [op |-> "set", d |-> d, k |-> c.k, v |-> c.v, how |-> how]
Clear(d) == Put(d, E) /\ act' = [op |-> "clear", d |-> d]
Take(d) == slot[d] # E /\ Put(d, E) /\ act' = [op |-> "take", d |-> d, k |-> slot[d].k, v |-> slot[d].v]                 \* moveX(): gives the content away
Copy(d, s, how) == Put(d, slot[s]) /\ act' = [op |-> "copy", d |-> d, s |-> s, how |-> how]
\* by assignment; or a new value is constructed in place of the old one
Move(d, s, how) == /\ slot' = IF d = s THEN slot ELSE [slot EXCEPT ![d] = slot[s], ![s] = E]
                   /\ act' = [op |-> "move", d |-> d, s |-> s, how |-> how]
Swap(d, s) == slot' = [slot EXCEPT ![d] = slot[s], ![s] = slot[d]] /\ act' = [op |-> "swap", d |-> d, s |-> s]
\* assigned (a part of) a value: the holder becomes the part, whoever holds it
CopyPart(d, s, how) == HasPart(slot[s]) /\ Put(d, Part(slot[s])) /\ act' = [op |-> "copypart", d |-> d, s |-> s, how |-> how]
MovePart(d) == HasLoosePart(slot[d]) /\ Put(d, Part(slot[d])) /\ act' = [op |-> "movepart", d |-> d, s |-> d]
\* set to the content it holds already
SetOwn(d) == slot[d].k \in Compound \cup {"STRING", "DATE", "TIME", "DATETIME", "INT"} /\ UNCHANGED slot /\ act' = [op |-> "setown", d |-> d]
\* the content changed in place, through the reference a mutable accessor gives
Mutate(d, v) == slot[d] # E /\ v \in Variants(slot[d].k) /\ v # slot[d].v /\ Put(d, C(slot[d].k, v)) /\ act' = [op |-> "mutate", d |-> d, v |-> v]
Init == slot = [d \in Slots |-> E] /\ act = [op |-> "init"]
Next == \E d \in Slots :
          \/ \E c \in Contents, how \in Hows : Set(d, c, how)
          \/ Clear(d) \/ Take(d) \/ MovePart(d) \/ SetOwn(d)
          \/ \E v \in 0..7 : Mutate(d, v)
          \/ \E s \in Slots : \E how \in {"assign", "construct"} : (how = "assign" \/ d # s) /\ (Copy(d, s, how) \/ Move(d, s, how))
          \/ \E s \in Slots : Swap(d, s) \/ \E how \in {"assign", "set"} : CopyPart(d, s, how)
TypeOK == slot \in [Slots -> Contents]
\* moving and exchanging lose and make nothing
Conserve == [][act'.op \in {"move", "swap"} =>
               (act'.op = "move" /\ act'.d # act'.s) \/ {slot[d] : d \in Slots} = {slot'[d] : d \in Slots}]_vars
View == slot
Seq1(f) == [i \in 1..Cardinality(Slots) |-> f[i]]
Emit == PrintT("@T " \o ToJson(<<Seq1(slot), act' @@ [obs |-> [i \in 1..Cardinality(Slots) |-> Obs(slot'[i])]], Seq1(slot')>>))
=============================================================================
