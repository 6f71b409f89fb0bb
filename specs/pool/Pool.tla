-------------------------------- MODULE Pool --------------------------------
(* An object pool owns what is added to it until it is cleared or goes away.  An
   operation is a call, one atomic step and a return; what a clear destroys is
   part of its result. *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Threads, Objs
VARIABLES pool, gone, pc
vars == <<pool, gone, pc>>
Idle == [f |-> "-", o |-> 0, ph |-> "idle", res |-> "-", dead |-> {}]
Init == pool = {} /\ gone = {} /\ pc = [t \in Threads |-> Idle]
Call(t, f, o) == /\ pc[t].ph = "idle"
                 /\ pc' = [pc EXCEPT ![t] = [f |-> f, o |-> o, ph |-> "start", res |-> "-", dead |-> {}]]
                 /\ UNCHANGED <<pool, gone>>
Finish(t, r, d) == pc' = [pc EXCEPT ![t].ph = "done", ![t].res = r, ![t].dead = d]
Step(t) == /\ pc[t].ph = "start"
           /\ CASE pc[t].f \in {"add", "make"} -> /\ pool' = pool \cup {pc[t].o} /\ UNCHANGED gone /\ Finish(t, "same", {})
                [] pc[t].f = "throw" -> UNCHANGED <<pool, gone>> /\ Finish(t, "thrown", {})
                [] pc[t].f = "empty" -> UNCHANGED <<pool, gone>> /\ Finish(t, IF pool = {} THEN "true" ELSE "false", {})
                [] pc[t].f = "clear" -> pool' = {} /\ gone' = gone \cup pool /\ Finish(t, "ok", pool)
Return(t, r, d) == /\ pc[t].ph = "done" /\ pc[t].res = r /\ pc[t].dead = d
                   /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<pool, gone>>
Fresh(o) == o \notin pool \cup gone /\ \A t \in Threads : pc[t].o # o
Next == \E t \in Threads : \/ \E f \in {"add", "make", "throw"}, o \in Objs : Fresh(o) /\ Call(t, f, o)
                           \/ \E f \in {"empty", "clear"} : Call(t, f, 0)
                           \/ Step(t) \/ Return(t, pc[t].res, pc[t].dead)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
OnceOnly == pool \cap gone = {}
\* an object leaves the pool only by being destroyed
NoLoss == [][pool \subseteq pool' \cup gone']_vars
=============================================================================
