---------------------------- MODULE BarrierTrace ----------------------------
EXTENDS Barrier, TraceBase
TInit == /\ TraceStart /\ n = 0 /\ hasComp = FALSE /\ here = 0 /\ gen = 0 /\ busy = Nobody
         /\ pc = [t \in Threads |-> Idle]
New == /\ Consume("new")
       /\ Ev.res = IF Ev.n = 0 THEN "invalid" ELSE "ok"
       /\ n' = Ev.n /\ hasComp' = Ev.comp /\ UNCHANGED <<here, gen, busy, pc>>
TCall  == Consume("call") /\ Call(Ev.t)
TRet   == Consume("ret") /\ Ev.res = "ok" /\ Return(Ev.t)
TBegin == Consume("begin") /\ CompBegin(Ev.t)
TEnd   == Consume("end") /\ CompEnd(Ev.t)
Quiet == /\ Consume("quiet") /\ UNCHANGED vars
         /\ \A t \in Threads : IF t \in {Ev.b[i] : i \in DOMAIN Ev.b} THEN BlockedDef(t) ELSE pc[t].ph = "idle"
\* the run ended with threads still (rightly) blocked
Stuck == Consume("stuck") /\ UNCHANGED vars /\ \E t \in Threads : BlockedDef(t)
TStep == Silent /\ \E t \in Threads : Step(t)
TNext == New \/ TCall \/ TRet \/ TBegin \/ TEnd \/ Quiet \/ Stuck \/ TStep
=============================================================================
