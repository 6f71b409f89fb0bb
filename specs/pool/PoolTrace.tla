----------------------------- MODULE PoolTrace -----------------------------
EXTENDS TraceBase, FiniteSets
VARIABLES pool, gone, pc
vars == <<pool, gone, pc>>
Threads == 0..7
INSTANCE Pool WITH Objs <- {}
SetOf(s) == {s[i] : i \in DOMAIN s}
Once(s) == Len(s) = Cardinality(SetOf(s))
TInit == TraceStart /\ Init
\* while it exists an object is itself: nobody destroyed or changed it
TCall == Consume("call") /\ Call(Ev.t, Ev.f, Ev.o)
TRet == Consume("ret") /\ Once(Ev.dead) /\ Return(Ev.t, Ev.res, SetOf(Ev.dead))
Quiet == Consume("quiet") /\ UNCHANGED vars /\ Ev.b = <<>>
\* what lives at the end is what the pool holds, and its going away destroys all of it
Live == Consume("live") /\ UNCHANGED vars /\ SetOf(Ev.o) = pool
Drop == Consume("drop") /\ Once(Ev.dead) /\ SetOf(Ev.dead) = pool /\ pool' = {} /\ gone' = gone \cup pool /\ UNCHANGED pc
TStep == Silent /\ \E t \in Threads : Step(t)
TNext == TCall \/ TRet \/ Quiet \/ Live \/ Drop \/ TStep
=============================================================================
