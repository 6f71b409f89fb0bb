----------------------------- MODULE LatchTrace -----------------------------
EXTENDS Latch, TraceBase
TInit == TraceStart /\ cnt = 0 /\ pc = [t \in Threads |-> Idle]
New  == /\ Consume("new")
        /\ Ev.res = IF Ev.n = 0 THEN "invalid" ELSE "ok"
        /\ cnt' = Ev.n /\ UNCHANGED pc
TCall == Consume("call") /\ Call(Ev.t, Ev.f)
TRet  == Consume("ret") /\ Return(Ev.t, Ev.res)
\* the code has every remaining thread blocked: the specification has to agree
Quiet == /\ Consume("quiet") /\ UNCHANGED vars
         /\ \A t \in Threads : IF t \in {Ev.b[i] : i \in DOMAIN Ev.b} THEN BlockedDef(t) ELSE pc[t].ph = "idle"
\* the run ended with threads still (rightly) blocked
Stuck == Consume("stuck") /\ UNCHANGED vars /\ \E t \in Threads : BlockedDef(t)
TStep == Silent /\ \E t \in Threads : Step(t)
TNext == New \/ TCall \/ TRet \/ Quiet \/ Stuck \/ TStep
=============================================================================
