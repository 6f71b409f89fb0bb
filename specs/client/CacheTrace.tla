----------------------------- MODULE CacheTrace -----------------------------
EXTENDS Cache, TraceBase
VARIABLES set,    \* the client's settings: local host, role, listener, heartbeats' pause (ms), nap between tries (ms)
          out,    \* calls under way
          lead,   \* what the listener says it leads
          held,   \* schemas handed out
          file,   \* the file of the cluster's id
          stopped
tv == <<cv, set, out, lead, held, file, stopped>>
Own == UNCHANGED <<set, out, lead, held, file, stopped>>
Me == IF set.listener THEN set.local ELSE ""
\* a storage host says which cluster it belongs to: as told, as its file has it, or (0) not yet
Cid == IF set.role = "STORAGE" THEN (IF beat.cid = "0" THEN file ELSE beat.cid) ELSE "0"
TInit == TraceStart /\ CInit /\ set = [local |-> "", role |-> "", listener |-> FALSE, pause |-> 0, nap |-> 0] /\ out = <<>> /\ lead = "[]" /\ held = <<>> /\ file = "0" /\ stopped = FALSE
CallOK == IF Ev.method = "heartBeat"
          THEN /\ Beat(Ev.at)
               /\ Ev.r.role = set.role /\ Ev.r.host = set.local /\ Ev.r.sha = "" /\ Ev.r.cluster = Cid
               /\ Ev.r.lead = (IF set.role = "STORAGE" THEN (IF set.listener THEN lead ELSE "[]") ELSE "")
          ELSE Asks(Ev.call, Ev.method, Ev.k)
\* an answered heartbeat gives a storage host its cluster
Joins == IF set.role = "STORAGE" /\ Cid = "0" /\ Ev.code = "SUCCEEDED" /\ Ev.method = "heartBeat" THEN Ev.r.cluster ELSE file
Answered == LET c == out[Ev.call] IN
  IF c.m = "heartBeat"
  THEN /\ Beaten(CASE Ev.code = "SUCCEEDED" -> "ok" [] Ev.code = "E_LEADER_CHANGED" -> "moved" [] OTHER -> "", Ev.r.time, Ev.at, set.pause)
       /\ file' = Joins
  ELSE (IF Ev.code = "SUCCEEDED" THEN Answers(c.m, c.k, Ev.r, Me, Ev.at, set.pause) ELSE Fails(c.m, c.k, Ev.at, set.pause)) /\ file' = file
Failed == LET c == out[Ev.call] IN IF c.m = "heartBeat" THEN Beaten("", 0, Ev.at, set.pause) ELSE Fails(c.m, c.k, Ev.at, set.pause)
Drop == out' = [k \in DOMAIN out \ {Ev.call} |-> out[k]]
Match(q, x) == /\ Ev.ok = x.ok
               /\ IF ~x.ok THEN Ev.c = x.c
                  ELSE IF q.m \in AnyOf THEN Ev.v \in x.v
                  ELSE IF q.m \in AsSet THEN Range(Ev.v) = x.v /\ Len(Ev.v) = Cardinality(x.v)
                  ELSE Ev.v = x.v
Stand == UNCHANGED tv
TNext == \/ Consume("new") /\ set' = Ev.set /\ file' = Ev.file /\ beat' = [beat EXCEPT !.cid = Ev.cid] /\ UNCHANGED <<kn, ready, ld, todo, at_, out, lead, held, stopped>>
         \/ Consume("do") /\ Do(Ev.who, Ev.tries) /\ Own
         \/ Consume("ret") /\ Returns(Ev.v, Ev.at, set.pause, stopped) /\ Own
         \/ Consume("slept") /\ Again(Ev.ms, set.nap, stopped) /\ Own
         \/ Consume("call") /\ CallOK /\ out' = (Ev.call :> [m |-> Ev.method, k |-> Ev.k]) @@ out /\ UNCHANGED <<set, lead, held, file, stopped>>
         \/ Consume("answered") /\ Waits /\ Ev.call \in DOMAIN out /\ Answered /\ Drop /\ UNCHANGED <<set, lead, held, stopped>>
         \/ Consume("failed") /\ Waits /\ Ev.call \in DOMAIN out /\ Failed /\ Drop /\ UNCHANGED <<set, lead, held, file, stopped>>
         \/ Consume("on") /\ set.listener /\ Tell([Ev.t EXCEPT !.rs = Range(@)]) /\ Own
         \/ Consume("q") /\ Waits /\ Match(Ev.q, Says(Ev.q)) /\ Query(Ev.q) /\ Own
         \/ Consume("advance") /\ Waits /\ (beat.on /\ Idle => Ev.did /\ Ev.at <= beat.hi) /\ Stand
         \/ Consume("leaders") /\ lead' = Ev.v /\ UNCHANGED <<cv, set, out, held, file, stopped>>
         \/ Consume("hold") /\ Waits /\ Ev.v = (IF ready THEN Sch(Ev.s, Ev.kind, Ev.t, -1) ELSE None) /\ held' = Append(held, Ev.v) /\ UNCHANGED <<cv, set, out, lead, file, stopped>>
         \/ Consume("held") /\ Ev.v = held[Ev.k] /\ Stand
         \/ Consume("stop") /\ Stop /\ stopped' = TRUE /\ UNCHANGED <<set, out, lead, held, file>>
         \/ Consume("end") /\ Waits /\ at_.who \in {"", "beat"} /\ Ev.file = file /\ Stand
=============================================================================
