------------------------------- MODULE Worker -------------------------------
(* How a worker hands tasks, timers and purges over: clients push under a lock,
   then ring the eventfd; the loop empties the lists under the lock whenever the
   eventfd rings.  Tasks are <<client, number>>; every client also adds one timer,
   and purges it.  One client may stop the worker. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Clients, NTasks, Together
VARIABLES pc, n, added, purgedC, tasks, timers, purges, bell, stop, wpc, mine, mineT, active, ran, pushed, owed
vars == <<pc, n, added, purgedC, tasks, timers, purges, bell, stop, wpc, mine, mineT, active, ran, pushed, owed>>
Init == /\ pc = [c \in Clients |-> "go"] /\ n = [c \in Clients |-> 0] /\ added = {} /\ purgedC = {} /\ tasks = <<>> /\ timers = {} /\ purges = {}
        /\ bell = FALSE /\ stop = FALSE /\ wpc = "sleep" /\ mine = <<>> /\ mineT = {} /\ active = {} /\ ran = <<>> /\ pushed = <<>> /\ owed = {}
W == <<wpc, mine, mineT, active, ran>>
Push(c) == /\ pc[c] = "go" /\ n[c] < NTasks /\ n' = [n EXCEPT ![c] = @ + 1] /\ tasks' = Append(tasks, <<c, n[c]>>) /\ pushed' = Append(pushed, <<c, n[c]>>)
           /\ pc' = [pc EXCEPT ![c] = "ring"] /\ UNCHANGED <<added, purgedC, timers, purges, bell, stop, owed, W>>
AddT(c) == /\ pc[c] = "go" /\ c \notin added /\ added' = added \cup {c} /\ timers' = timers \cup {c} /\ pc' = [pc EXCEPT ![c] = "ring"]
           /\ UNCHANGED <<n, purgedC, tasks, purges, bell, stop, pushed, owed, W>>
Purge(c) == /\ pc[c] = "go" /\ c \in added /\ c \notin purgedC /\ purgedC' = purgedC \cup {c} /\ purges' = purges \cup {c} /\ pc' = [pc EXCEPT ![c] = "ring"]
            /\ UNCHANGED <<n, added, tasks, timers, bell, stop, pushed, owed, W>>
Ring(c) == pc[c] = "ring" /\ bell' = TRUE /\ pc' = [pc EXCEPT ![c] = "go"] /\ UNCHANGED <<n, added, purgedC, tasks, timers, purges, stop, pushed, owed, W>>
Busy == {c \in Clients : pc[c] = "ring"}
Stop(c) == /\ pc[c] = "go" /\ ~stop /\ stop' = TRUE /\ pc' = [pc EXCEPT ![c] = "ring"]
           /\ owed' = {pushed[i] : i \in DOMAIN pushed} \ {<<x, n[x] - 1>> : x \in Busy}
           /\ UNCHANGED <<n, added, purgedC, tasks, timers, purges, bell, pushed, W>>
C == <<pc, n, added, purgedC, stop, pushed, owed>>
Wake == wpc = "sleep" /\ bell /\ bell' = FALSE /\ wpc' = "look" /\ UNCHANGED <<C, tasks, timers, purges, mine, mineT, active, ran>>
Look == wpc = "look" /\ wpc' = (IF stop THEN "last" ELSE "take") /\ UNCHANGED <<C, tasks, timers, purges, bell, mine, mineT, active, ran>>
Last(p) == IF p = "last" THEN "last2" ELSE "run"
TakeT == /\ wpc \in {"take", "last"} /\ mine' = tasks /\ tasks' = <<>> /\ wpc' = Last(wpc) /\ UNCHANGED <<C, timers, purges, bell, mineT, active, ran>>
RunT == /\ wpc \in {"run", "last2"} /\ mine # <<>> /\ ran' = Append(ran, Head(mine)) /\ mine' = Tail(mine) /\ UNCHANGED <<C, tasks, timers, purges, bell, wpc, mineT, active>>
\* timers and purges are taken in one step, or one after the other
TakeM == /\ wpc \in {"run", "last2"} /\ mine = <<>> /\ active' = active \cup timers /\ timers' = {}
         /\ mineT' = (IF Together THEN purges ELSE {}) /\ purges' = (IF Together THEN {} ELSE purges)
         /\ wpc' = (IF wpc = "run" THEN "purge" ELSE "purge2") /\ UNCHANGED <<C, tasks, bell, mine, ran>>
DoP == /\ wpc \in {"purge", "purge2"} /\ LET p == IF Together THEN mineT ELSE purges IN active' = active \ p
       /\ purges' = (IF Together THEN purges ELSE {}) /\ mineT' = {} /\ wpc' = (IF wpc = "purge" THEN "sleep" ELSE "gone")
       /\ UNCHANGED <<C, tasks, timers, bell, mine, ran>>
Next == (\E c \in Clients : Push(c) \/ AddT(c) \/ Purge(c) \/ Ring(c) \/ Stop(c)) \/ Wake \/ Look \/ TakeT \/ RunT \/ TakeM \/ DoP
\* ------------------------------------------------------------------ promises
Fifo == Len(ran) <= Len(pushed) /\ \A i \in DOMAIN ran : ran[i] = pushed[i]
Asleep == wpc = "sleep" /\ ~bell /\ Busy = {}
NothingWaits == Asleep => tasks = <<>> /\ timers = {} /\ purges = {} /\ ~stop
PurgedIsGone == Asleep => active \cap purgedC = {}
Drained == wpc = "gone" => owed \subseteq {ran[i] : i \in DOMAIN ran}
=============================================================================
