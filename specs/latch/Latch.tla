-------------------------------- MODULE Latch --------------------------------
(* One-shot countdown latch.  An operation is a call, one or two atomic steps,
   and a return; the atomic steps are where it takes effect. *)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, Max
VARIABLES cnt,     \* remaining count
          pc       \* pc[t] = [f |-> operation, ph |-> phase, res |-> result]
vars == <<cnt, pc>>
Idle == [f |-> "-", ph |-> "idle", res |-> "-"]
Ops  == {"down", "wait", "downWait", "isReady"}

Init == cnt \in 1..Max /\ pc = [t \in Threads |-> Idle]

Call(t, f) == /\ pc[t].ph = "idle"
              /\ pc' = [pc EXCEPT ![t] = [f |-> f, ph |-> "start", res |-> "-"]]
              /\ UNCHANGED cnt
Finish(t, r) == pc' = [pc EXCEPT ![t].ph = "done", ![t].res = r]

\* down and downWait take one off the count, or fail on a latch that is at zero
TakeOne(t) ==
    /\ pc[t].ph = "start" /\ pc[t].f \in {"down", "downWait"}
    /\ IF cnt = 0 THEN Finish(t, "error") /\ UNCHANGED cnt
       ELSE /\ cnt' = cnt - 1
            /\ IF pc[t].f = "down" \/ cnt = 1 THEN Finish(t, "ok")
               ELSE pc' = [pc EXCEPT ![t].ph = "waiting"]
\* wait, and a downWait that was not the last, go on only once the count is zero
Release(t) ==
    /\ pc[t].ph = "waiting" \/ (pc[t].ph = "start" /\ pc[t].f = "wait")
    /\ cnt = 0
    /\ Finish(t, "ok") /\ UNCHANGED cnt
Probe(t) == /\ pc[t].ph = "start" /\ pc[t].f = "isReady"
            /\ Finish(t, IF cnt = 0 THEN "true" ELSE "false") /\ UNCHANGED cnt
Return(t, r) == /\ pc[t].ph = "done" /\ pc[t].res = r
                /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED cnt

Step(t) == TakeOne(t) \/ Release(t) \/ Probe(t)
Blocked(t) == pc[t].ph \notin {"idle", "done"} /\ ~ENABLED Step(t)
BlockedDef(t) == cnt # 0 /\ (pc[t].ph = "waiting" \/ (pc[t].ph = "start" /\ pc[t].f = "wait"))

Next == \E t \in Threads : \/ \E f \in Ops : Call(t, f)
                           \/ Step(t)
                           \/ Return(t, pc[t].res)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t)) /\ WF_vars(Return(t, pc[t].res))
---------------------------------------------------------------------------
TypeOK == cnt \in 0..Max
BlockedOK == \A t \in Threads : Blocked(t) <=> BlockedDef(t)
OneShot == [][cnt' <= cnt]_vars
NoEarlyRelease == [][\A t \in Threads :
    (pc[t].f \in {"wait", "downWait"} /\ pc'[t].ph = "done" /\ pc[t].ph # "done" /\ pc'[t].res = "ok") => cnt' = 0]_vars
NoLostWakeup == \A t \in Threads : (cnt = 0 /\ pc[t].ph \in {"start", "waiting"}) ~> pc[t].ph = "idle"
=============================================================================
