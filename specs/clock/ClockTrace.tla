----------------------------- MODULE ClockTrace -----------------------------
EXTENDS Clock, TraceBase
TInit == TraceStart /\ ClockInit
TNext == \/ Consume("start") /\ Start(Ev.wall)
         \/ Consume("tick") /\ Tick(Ev.d)
         \/ Consume("new") /\ Reset(Ev.n, Ev.paused)
         \/ Consume("reset") /\ Reset(Ev.n, Ev.paused)
         \/ Consume("pause") /\ Pause(Ev.n)
         \/ Consume("resume") /\ Resume(Ev.n)
         \/ Consume("copy") /\ Copy(Ev.n, Ev.m)
         \/ Consume("read") /\ ReadWatch(Ev.n, Ev) /\ Same
         \/ Consume("slow") /\ SlowOk(Ev) /\ Same
         \/ Consume("fast") /\ FastOk(Ev) /\ Same
         \/ Consume("warp") /\ Warp(Ev.d)
         \/ Consume("track") /\ NewTrack(Ev.n)
         \/ Consume("isslow") /\ Slow(Ev.n, Ev.thr, Ev.dflt, Ev.res, Ev.dur) /\ Same
=============================================================================
