------------------------------- MODULE Shared -------------------------------
(* One counter and one histogram used by several threads: each call takes effect at one instant. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Vals
VARIABLES bag,   \* counter -> the samples in it
          pc     \* thread -> the running call, or "idle"
SharedVars == <<bag, pc>>
Threads == 0..7
Idle == [f |-> "idle", c |-> 0, x |-> 0, done |-> FALSE, v |-> 0]
SInit == bag = [c \in {1, 2} |-> <<>>] /\ pc = [t \in Threads |-> Idle]
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
Largest(s) == IF s = <<>> THEN 0 ELSE CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= x
Answer(f, c) == CASE f = "sum" -> Total(bag[c]) [] f = "count" -> Len(bag[c]) [] f = "most" -> Largest(bag[c]) [] OTHER -> 0
Call(t, f, c, x) == pc[t].f = "idle" /\ pc' = [pc EXCEPT ![t] = [f |-> f, c |-> c, x |-> x, done |-> FALSE, v |-> 0]] /\ bag' = bag
Effect(t) == pc[t].f # "idle" /\ ~pc[t].done /\ pc' = [pc EXCEPT ![t].done = TRUE, ![t].v = Answer(pc[t].f, pc[t].c)]
             /\ bag' = IF pc[t].f = "add" THEN [bag EXCEPT ![pc[t].c] = Append(@, pc[t].x)] ELSE bag
Return(t, v) == pc[t].f # "idle" /\ pc[t].done /\ v = pc[t].v /\ pc' = [pc EXCEPT ![t] = Idle] /\ bag' = bag
=============================================================================
