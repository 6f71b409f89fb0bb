----------------------------- MODULE StatsTrace -----------------------------
EXTENDS Stats, TraceBase
VARIABLES cs, now
vars == <<cs, now>>
TInit == TraceStart /\ cs = <<>> /\ now = 0
Got == [ok |-> Ev.ok, v |-> Ev.v]
Same == UNCHANGED vars
TNext ==
  \/ Consume("at") /\ now' = Ev.now /\ cs' = cs
  \/ Consume("reg") /\ cs' = Registered(cs, Ev.name, Ev.histo, Ev.w, Ev.lo, Ev.hi, Ev.text) /\ Ev.id = IdOf(cs', Ev.name) /\ Ev.valid /\ now' = now
  \/ Consume("add") /\ cs' = Added(cs, Ev.c, Ev.x, now) /\ now' = now
  \/ Consume("read") /\ Got = ReadMetric(cs, Ev.text, now) /\ Same
  \/ Consume("stat") /\ Got = (IF Ev.c = 0 THEN No ELSE ReadStat(cs, Ev.c, Ev.m, Ev.r, now)) /\ Same
  \/ Consume("statn") /\ Got = (IF Known(cs, Ev.name) THEN ReadStat(cs, IdOf(cs, Ev.name), Ev.m, Ev.r, now) ELSE No) /\ Same
  \/ Consume("pct") /\ Got = ReadPct(cs, Ev.c, Ev.units, Ev.r, now) /\ Same
  \/ Consume("pctn") /\ Got = (IF Known(cs, Ev.name) THEN ReadPct(cs, IdOf(cs, Ev.name), Ev.units, Ev.r, now) ELSE No) /\ Same
  \/ Consume("all") /\ Ev.kept /\ (\A i \in 1..Len(Ev.all) : Ev.all[i].n = 1)
     /\ SameBag([i \in 1..Len(Ev.all) |-> [k |-> Ev.all[i].k, v |-> Ev.all[i].v]], Everything(cs, DOMAIN cs, now)) /\ Same
=============================================================================
