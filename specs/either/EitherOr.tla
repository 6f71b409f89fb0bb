------------------------------ MODULE EitherOr ------------------------------
(* A container that holds nothing, a value of its first ("L") alternative or a
   value of its second ("R") alternative.  Slots "a" and "b" are containers of
   the same type; "c" is a container of another, convertible type.  Every
   public operation is one action; `ev` is the last operation and its result. *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json
CONSTANTS Vals,      \* abstract payloads
          Copyable,  \* FALSE: the alternatives can only be moved
          Writable   \* the alternatives accessors hand out references to
VARIABLES slot,      \* slot[s] = [k |-> kind, v |-> payload]
          ev
vars == <<slot, ev>>

Same  == {"a", "b"}
Slots == Same \cup {"c"}
Alt   == {"L", "R"}
None  == [k |-> "none", v |-> 0]     \* no container in the slot
Void  == [k |-> "void", v |-> 0]
Hows  == IF Copyable THEN {"copy", "move"} ELSE {"move"}

Exists(s) == slot[s].k # "none"
Holds(s)  == slot[s].k \in Alt

Init == slot = [s \in Slots |-> None] /\ ev = [op |-> "init"]

New(s) == /\ ~Exists(s)
          /\ slot' = [slot EXCEPT ![s] = Void]
          /\ ev' = [op |-> "new", s |-> s]

NewVal(s, k, v, how) ==
    /\ ~Exists(s)
    /\ slot' = [slot EXCEPT ![s] = [k |-> k, v |-> v]]
    /\ ev' = [op |-> "newval", s |-> s, k |-> k, v |-> v, how |-> how]

\* construct d from s: the copy equals the source, moving empties the source
NewFrom(d, s, how) ==
    /\ ~Exists(d) /\ Exists(s) /\ d # s
    /\ slot' = [slot EXCEPT ![d] = slot[s], ![s] = IF how = "move" THEN Void ELSE slot[s]]
    /\ ev' = [op |-> "newfrom", d |-> d, s |-> s, how |-> how]

SetVal(s, k, v, how) ==
    /\ Exists(s)
    /\ slot' = [slot EXCEPT ![s] = [k |-> k, v |-> v]]
    /\ ev' = [op |-> "setval", s |-> s, k |-> k, v |-> v, how |-> how]

\* assign a reference to the value the container itself holds
SetOwn(s, how) ==
    /\ Holds(s)
    /\ UNCHANGED slot
    /\ ev' = [op |-> "setown", s |-> s, how |-> how]

SetFrom(d, s, how) ==
    /\ Exists(d) /\ Exists(s)
    /\ slot' = IF d = s THEN slot
               ELSE [slot EXCEPT ![d] = slot[s], ![s] = IF how = "move" THEN Void ELSE slot[s]]
    /\ ev' = [op |-> "setfrom", d |-> d, s |-> s, how |-> how]

\* move the value out of the container
Take(s) ==
    /\ Holds(s)
    /\ slot' = [slot EXCEPT ![s] = Void]
    /\ ev' = [op |-> "take", s |-> s, k |-> slot[s].k, res |-> slot[s].v]

\* write through the reference an accessor hands out
Write(s, v) ==
    /\ slot[s].k \in Writable
    /\ slot' = [slot EXCEPT ![s].v = v]
    /\ ev' = [op |-> "write", s |-> s, k |-> slot[s].k, v |-> v]

Drop(s) == /\ Exists(s)
           /\ slot' = [slot EXCEPT ![s] = None]
           /\ ev' = [op |-> "drop", s |-> s]

ValHows == Hows \cup {"conv"}
Next ==
    \/ \E s \in Slots : New(s) \/ Take(s) \/ Drop(s)
    \/ \E s \in Slots, v \in Vals : Write(s, v)
    \/ \E s \in Slots, k \in Alt, v \in Vals, how \in ValHows : NewVal(s, k, v, how) \/ SetVal(s, k, v, how)
    \/ \E s \in Slots, how \in Hows : SetOwn(s, how)
    \/ \E d \in Same, s \in Slots, how \in Hows : NewFrom(d, s, how) \/ SetFrom(d, s, how)

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
TypeOK == slot \in [Slots -> {None, Void} \cup [k : Alt, v : Vals]]
\* the number of live objects of each alternative the containers account for
Live(k) == Cardinality({s \in Slots : slot[s].k = k})
LiveOK == Live("L") + Live("R") + Cardinality({s \in Slots : ~Holds(s)}) = Cardinality(Slots)
\* a value leaves a container only by an operation on that container
OnlyNamed == [][\A s \in Slots : slot'[s] # slot[s] => 
                 \/ "s" \in DOMAIN ev' /\ ev'.s = s
                 \/ "d" \in DOMAIN ev' /\ ev'.d = s]_vars
\* moving transfers: nothing is lost or duplicated
MoveConserves == [][ev'.op \in {"newfrom", "setfrom"} /\ ev'.how = "move" /\ ev'.d # ev'.s
                    => slot'[ev'.d] = slot[ev'.s] /\ slot'[ev'.s] = Void]_vars

View == slot
Emit == PrintT("@T " \o ToJson(<<slot, ev', slot'>>))
=============================================================================
