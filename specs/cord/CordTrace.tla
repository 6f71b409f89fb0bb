----------------------------- MODULE CordTrace -----------------------------
EXTENDS Cord, TraceBase
TInit == TraceStart /\ CInit
\* every observation of both cords after each operation
Seen == /\ \A c \in Cords : /\ Ev.obs[c].str = cont'[c]
                            /\ Ev.obs[c].size = Len(cont'[c])
                            /\ Ev.obs[c].empty = (cont'[c] = <<>>)
                            /\ Ev.obs[c].visited = cont'[c]
                            /\ Ev.obs[c].appended = <<120>> \o cont'[c] /\ Ev.obs[c].appret = Len(cont'[c])
TNext == \/ Consume("write") /\ Write(Ev.c, Ev.s) /\ Seen
         \/ Consume("put") /\ Put(Ev.c, Ev.t, Ev.v) /\ Seen
         \/ Consume("append") /\ AppendCord(Ev.c, Ev.s) /\ Seen
         \/ Consume("clear") /\ Clear(Ev.c) /\ Seen
         \/ Consume("visit") /\ Visit(Ev.c, Ev.k, Ev.seen, Ev.calls, Ev.res)
=============================================================================
