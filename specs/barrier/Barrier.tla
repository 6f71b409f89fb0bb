------------------------------- MODULE Barrier -------------------------------
(* Reusable barrier for n participants with an optional completion callback. *)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, Max
VARIABLES n,        \* participants
          hasComp,  \* a completion callback was given
          here,     \* arrivals of the current generation
          gen,      \* generations completed
          busy,     \* the thread running the completion phase, or "none"
          pc        \* pc[t] = [ph |-> phase, g |-> generation it arrived in]
vars == <<n, hasComp, here, gen, busy, pc>>
Idle == [ph |-> "idle", g |-> 0]
Nobody == 1000

Init == /\ n \in 1..Max /\ hasComp \in BOOLEAN /\ here = 0 /\ gen = 0 /\ busy = Nobody
        /\ pc = [t \in Threads |-> Idle]

Call(t) == /\ pc[t].ph = "idle"
           /\ pc' = [pc EXCEPT ![t] = [ph |-> "start", g |-> 0]]
           /\ UNCHANGED <<n, hasComp, here, gen, busy>>
\* nobody arrives while the completion phase runs
Arrive(t) ==
    /\ pc[t].ph = "start" /\ busy = Nobody
    /\ here' = here + 1
    /\ IF here + 1 < n
       THEN /\ pc' = [pc EXCEPT ![t] = [ph |-> "waiting", g |-> gen]] /\ UNCHANGED busy
       ELSE /\ pc' = [pc EXCEPT ![t] = [ph |-> IF hasComp THEN "last" ELSE "ended", g |-> gen]] /\ busy' = t
    /\ UNCHANGED <<n, hasComp, gen>>
CompBegin(t) == /\ pc[t].ph = "last"
                /\ pc' = [pc EXCEPT ![t].ph = "completing"]
                /\ UNCHANGED <<n, hasComp, here, gen, busy>>
CompEnd(t) == /\ pc[t].ph = "completing"
              /\ pc' = [pc EXCEPT ![t].ph = "ended"]
              /\ UNCHANGED <<n, hasComp, here, gen, busy>>
\* the completion phase is over: a new generation begins and the waiters may go
Advance(t) == /\ pc[t].ph = "ended"
              /\ pc' = [pc EXCEPT ![t].ph = "done"]
              /\ gen' = gen + 1 /\ here' = 0 /\ busy' = Nobody
              /\ UNCHANGED <<n, hasComp>>
Release(t) == /\ pc[t].ph = "waiting" /\ pc[t].g < gen
              /\ pc' = [pc EXCEPT ![t].ph = "done"]
              /\ UNCHANGED <<n, hasComp, here, gen, busy>>
Return(t) == /\ pc[t].ph = "done"
             /\ pc' = [pc EXCEPT ![t] = Idle]
             /\ UNCHANGED <<n, hasComp, here, gen, busy>>
Step(t) == Arrive(t) \/ Advance(t) \/ Release(t)
Next == \E t \in Threads : Call(t) \/ Step(t) \/ CompBegin(t) \/ CompEnd(t) \/ Return(t)
Fair == \A t \in Threads : WF_vars(Step(t)) /\ WF_vars(CompBegin(t)) /\ WF_vars(CompEnd(t)) /\ WF_vars(Return(t))
Spec == Init /\ [][Next]_vars /\ Fair
BlockedDef(t) == pc[t].ph = "waiting" /\ pc[t].g = gen /\ busy = Nobody
---------------------------------------------------------------------------
Bound == gen <= 3
TypeOK == here \in 0..n /\ (busy = Nobody => here < n)
\* a generation is complete exactly when n threads arrived in it
Waiters(g) == {t \in Threads : pc[t].ph = "waiting" /\ pc[t].g = g}
CountOK == Cardinality(Waiters(gen)) + (IF busy = Nobody THEN 0 ELSE 1) = here
\* nobody leaves before the completion of its generation ended
NoEarly == [][\A t \in Threads : pc[t].ph # "done" /\ pc'[t].ph = "done" =>
                 IF pc[t].ph = "ended" THEN gen' = gen + 1 ELSE pc[t].g < gen]_vars
OneCompletion == Cardinality({t \in Threads : pc[t].ph \in {"last", "completing", "ended"}}) = (IF busy = Nobody THEN 0 ELSE 1)
\* waiters of a finished generation do get out
NoLost == \A t \in Threads : (pc[t].ph = "waiting" /\ pc[t].g < gen) ~> pc[t].ph = "idle"
=============================================================================
