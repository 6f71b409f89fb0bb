---------------------------- MODULE ThreadsTrace ----------------------------
(* Named threads: each running thread has a name (at most 15 bytes; the kernel
   cuts longer ones) and a stack of the names its open nominators will restore.
   Thread 0 is the one that starts all others. *)
EXTENDS TraceBase, FiniteSets
VARIABLES nm, stk, tid
vars == <<nm, stk, tid>>
Cut(s) == SubSeq(s, 1, IF Len(s) > 15 THEN 15 ELSE Len(s))
Set(f, t, v) == [x \in DOMAIN f \cup {t} |-> IF x = t THEN v ELSE f[x]]
Del(f, t) == [x \in DOMAIN f \ {t} |-> f[x]]
TInit == TraceStart /\ nm = [t \in {} |-> <<>>] /\ stk = [t \in {} |-> <<>>] /\ tid = [t \in {} |-> 0]
\* every running thread, seen from inside: its name and its id, twice, and the kernel's id
Seen == /\ {Ev.all[i].t : i \in DOMAIN Ev.all} = DOMAIN nm' /\ Len(Ev.all) = Cardinality(DOMAIN nm')
        /\ \A i \in DOMAIN Ev.all : LET e == Ev.all[i] IN
             /\ e.name = nm'[e.t] /\ e.got = e.name
             /\ e.id = e.real /\ e.id2 = e.id
             /\ tid' [e.t] = e.real
        /\ \A a, b \in DOMAIN tid' : tid'[a] = tid'[b] => a = b
IdOf(t) == LET i == CHOOSE i \in DOMAIN Ev.all : Ev.all[i].t = t IN Ev.all[i].real
Start == Consume("start") /\ nm' = Set(nm, 0, Ev.name) /\ stk' = Set(stk, 0, <<>>) /\ tid' = Set(tid, 0, IdOf(0)) /\ Seen
\* a thread without a name takes over the one of its creator
Spawn == /\ Consume("spawn") /\ Ev.args
         /\ nm' = Set(nm, Ev.t, IF Ev.name = <<>> THEN nm[0] ELSE Cut(Ev.name))
         /\ stk' = Set(stk, Ev.t, <<>>) /\ tid' = Set(tid, Ev.t, IdOf(Ev.t)) /\ Seen
SetName == Consume("set") /\ nm' = Set(nm, Ev.t, Cut(Ev.name)) /\ UNCHANGED <<stk, tid>> /\ Seen
Push == /\ Consume("push") /\ nm' = Set(nm, Ev.t, Cut(Ev.name)) /\ stk' = Set(stk, Ev.t, <<nm[Ev.t]>> \o stk[Ev.t])
        /\ UNCHANGED tid /\ Seen
Pop == /\ Consume("pop") /\ UNCHANGED tid
       /\ IF stk[Ev.t] = <<>> THEN UNCHANGED <<nm, stk>>
          ELSE nm' = Set(nm, Ev.t, Head(stk[Ev.t])) /\ stk' = Set(stk, Ev.t, Tail(stk[Ev.t]))
       /\ Seen
\* moving the thread object does not touch the thread
Move == Consume("move") /\ UNCHANGED vars /\ Seen /\ Ev.left = FALSE /\ Ev.right = TRUE
Join == Consume("join") /\ Ev.ended /\ nm' = Del(nm, Ev.t) /\ stk' = Del(stk, Ev.t) /\ tid' = Del(tid, Ev.t) /\ Seen
TNext == Start \/ Spawn \/ SetName \/ Push \/ Pop \/ Move \/ Join
=============================================================================
