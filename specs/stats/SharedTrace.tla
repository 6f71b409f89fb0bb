---------------------------- MODULE SharedTrace ----------------------------
EXTENDS TraceBase, FiniteSets, Integers
VARIABLES bag, pc
INSTANCE Shared WITH Vals <- {}
TInit == TraceStart /\ SInit
TCall == Consume("call") /\ Call(Ev.t, Ev.f, Ev.c, Ev.x)
TRet == Consume("ret") /\ Ev.res = "ok" /\ Return(Ev.t, Ev.v)
Quiet == Consume("quiet") /\ UNCHANGED <<bag, pc>> /\ Ev.b = <<>>
TStep == Silent /\ \E t \in Threads : Effect(t)
TNext == TCall \/ TRet \/ Quiet \/ TStep
=============================================================================
