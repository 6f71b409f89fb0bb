---------------------------- MODULE WorkerTrace ----------------------------
(* What GenericWorker and GenericThreadPool promise, as a machine that explains a
   recorded history.  A worker has one thread, a queue of tasks and a set of timers.
   A task is k: its kind says what comes out of it (kinds in the driver). *)
EXTENDS TraceBase, FiniteSets
VARIABLES ws,      \* workers in the order of their making: [thr, q, run, st]; thr = -1: not seen yet
          tk,      \* task k -> [w, typ, kind, ms, lo, hi, ret, pur, runs, late]; hi = -1: not known
          pend,    \* thread -> [f, k, ph] of the call it is in
          cnt, pool, stopped, thread, nids, fresh
vars == <<ws, tk, pend, cnt, pool, stopped, thread, nids, fresh>>
Set(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
NoWorker == [thr |-> 0 - 1, q |-> <<>>, run |-> 0, st |-> "up", gone |-> {}]
TInit == /\ TraceStart /\ ws = <<>> /\ tk = [x \in {} |-> 0] /\ pend = [x \in {} |-> 0] /\ cnt = 0 /\ pool = FALSE
         /\ stopped = "none" /\ thread = FALSE /\ nids = {} /\ fresh = FALSE
New == Consume("new") /\ pool' = Ev.pool /\ UNCHANGED <<ws, tk, pend, cnt, stopped, thread, nids, fresh>>
Adds == {"add", "delay", "rep"}
RangeOf(s) == {s[i] : i \in DOMAIN s}
\* every task that has to run before the workers are gone
Owed == {k \in DOMAIN tk : tk[k].typ = "add" /\ tk[k].owed /\ tk[k].runs = 0}
\* ------------------------------------------------------------------ calls
Call == /\ Consume("call") /\ Ev.t \notin DOMAIN pend
        /\ pend' = Set(pend, Ev.t, [f |-> Ev.f, k |-> Ev.k, ph |-> IF Ev.f \in Adds THEN "take" ELSE "-", n |-> Ev.n, st0 |-> stopped])
        /\ tk' = IF Ev.f \in Adds
                 THEN Set(tk, Ev.k, [w |-> 0, typ |-> Ev.f, kind |-> Ev.kind, ms |-> Ev.ms * 1000, lo |-> Ev.now + Ev.ms * 1000, hi |-> 0 - 1,
                                     ret |-> FALSE, pur |-> FALSE, runs |-> 0, owed |-> FALSE, live |-> FALSE, done |-> FALSE,
                                     kills |-> {j \in DOMAIN tk : tk[j].pur}])
                 ELSE IF Ev.f \in {"stop", "destroy"} /\ stopped = "up"
                 \* what was added before has to run
                 THEN [k \in DOMAIN tk |-> [tk[k] EXCEPT !.owed = tk[k].ret]]
                 ELSE tk
        /\ stopped' = IF Ev.f \in {"stop", "destroy"} /\ stopped = "up" THEN "stopping" ELSE stopped
        \* the new workers come to life within the call
        /\ IF Ev.f = "start" /\ stopped \in {"none"} THEN ws' = [i \in 1..Ev.n |-> NoWorker] /\ cnt' = 0 ELSE UNCHANGED <<ws, cnt>>
        /\ UNCHANGED <<pool, thread, nids, fresh>>
\* an add takes the next worker in turn, then the task is in the worker's hands
Take(t) == /\ t \in DOMAIN pend /\ pend[t].ph = "take" /\ ws # <<>>
           /\ pend' = [pend EXCEPT ![t].ph = "push"]
           /\ LET w == IF pool THEN (cnt % Len(ws)) + 1 ELSE 1 IN tk' = [tk EXCEPT ![pend[t].k].w = w]
           /\ cnt' = cnt + 1 /\ UNCHANGED <<ws, pool, stopped, thread, nids, fresh>>
\* nobody will ever look at it
Drop(t) == /\ t \in DOMAIN pend /\ pend[t].ph = "take" /\ ws = <<>> /\ ~pool /\ pend' = [pend EXCEPT ![t].ph = "-"]
           /\ UNCHANGED <<ws, tk, cnt, pool, stopped, thread, nids, fresh>>
Push(t) == /\ t \in DOMAIN pend /\ pend[t].ph = "push"
           /\ pend' = [pend EXCEPT ![t].ph = "-"]
           /\ LET k == pend[t].k IN LET w == tk[k].w IN
              IF tk[k].typ = "add" THEN ws' = [ws EXCEPT ![w].q = Append(@, k)] /\ UNCHANGED tk
              ELSE tk' = [tk EXCEPT ![k].live = TRUE] /\ UNCHANGED ws
           /\ UNCHANGED <<cnt, pool, stopped, thread, nids, fresh>>
Ret == /\ Consume("ret") /\ Ev.t \in DOMAIN pend /\ pend[Ev.t].ph = "-" /\ pend' = Del(pend, Ev.t)
       /\ LET p == pend[Ev.t] IN
          \/ /\ p.f \in {"add", "delay"} /\ tk' = [tk EXCEPT ![p.k].ret = TRUE] /\ UNCHANGED <<ws, stopped, thread, nids, fresh>>
          \* ids of repeated tasks differ
          \/ /\ p.f = "rep" /\ tk' = [tk EXCEPT ![p.k].ret = TRUE] /\ Ev.res \notin nids /\ nids' = nids \cup {Ev.res}
             /\ UNCHANGED <<ws, stopped, thread, fresh>>
          \/ /\ p.f = "start" /\ Ev.res = (IF p.st0 = "none" THEN "yes" ELSE "no")
             /\ stopped' = IF p.st0 = "none" THEN "up" ELSE stopped
             /\ thread' = TRUE /\ UNCHANGED <<ws, tk, nids, fresh>>
          \* one stop succeeds, when there is something to stop
          \/ /\ p.f = "stop" /\ Ev.res = (IF p.st0 = "up" \/ (pool /\ p.st0 = "none") THEN "yes" ELSE "no")
             /\ stopped' = (IF stopped = "stopping" THEN "stopped" ELSE stopped) /\ UNCHANGED <<ws, tk, thread, nids, fresh>>
          \* wait comes back when the workers are gone, and all they were given is done
          \/ /\ p.f \in {"wait", "destroy"}
             /\ \/ p.f = "destroy"
                \/ Ev.res = (IF thread \/ pool THEN "yes" ELSE "no")
             /\ ~thread \/ (Owed = {} /\ stopped \in {"stopping", "stopped"} /\ \A i \in DOMAIN ws : ws[i].run = 0)
             /\ thread' = FALSE /\ ws' = <<>> /\ stopped' = (IF pool THEN "none" ELSE IF thread THEN "over" ELSE stopped)
             /\ tk' = [k \in DOMAIN tk |-> [tk[k] EXCEPT !.live = FALSE]]
             /\ nids' = {} /\ UNCHANGED <<fresh>>
          \/ /\ p.f = "purge" /\ tk' = [tk EXCEPT ![p.k].pur = TRUE] /\ UNCHANGED <<ws, stopped, thread, nids, fresh>>
       /\ UNCHANGED <<cnt, pool>>
\* ------------------------------------------------------------------ workers
\* the worker of thread t, which may be seen for the first time
OfThread(t) == LET known == {i \in DOMAIN ws : ws[i].thr = t} IN
               IF known # {} THEN known ELSE {i \in DOMAIN ws : ws[i].thr = 0 - 1}
\* what the worker w knows when it has nothing to do
Settle(w, now) == [k \in DOMAIN tk |-> IF tk[k].w = w /\ tk[k].live /\ tk[k].ret
                                        THEN [tk[k] EXCEPT !.hi = IF @ = 0 - 1 THEN now + tk[k].ms ELSE @,
                                                           !.live = ~tk[k].pur]
                                        ELSE tk[k]]
\* it sleeps only when no task waits for it, and not after it was stopped
IdleW == /\ Consume("idle") /\ \E w \in OfThread(Ev.t) :
              /\ ws' = [ws EXCEPT ![w].thr = Ev.t]
              /\ ws[w].run = 0
              /\ \A i \in DOMAIN ws[w].q : ~tk[ws[w].q[i]].ret
              /\ stopped # "stopped"
              /\ tk' = Settle(w, Ev.now)
         /\ UNCHANGED <<pend, cnt, pool, stopped, thread, nids, fresh>>
\* time goes on: no sleeping worker may miss a timer
\* its purge is under way
Leaving(k) == \E t \in DOMAIN pend : pend[t].f = "purge" /\ pend[t].k = k
Tick == /\ Consume("tick")
        /\ \A k \in DOMAIN tk : (tk[k].live /\ ~tk[k].pur /\ ~Leaving(k) /\ tk[k].hi # 0 - 1 /\ (\E i \in DOMAIN Ev.idle : ws[tk[k].w].thr = Ev.idle[i])) => tk[k].hi >= Ev.now
        /\ UNCHANGED vars
\* a purge that was over when a task was added is over when the task begins
Begin == /\ Consume("begin") /\ Ev.args /\ \E w \in OfThread(Ev.t) : LET k == Ev.k IN
              /\ ws[w].run = 0 /\ tk[k].w = w /\ Ev.t \notin DOMAIN pend
              /\ IF tk[k].typ = "add"
                 THEN ws[w].q # <<>> /\ Head(ws[w].q) = k /\ ws' = [ws EXCEPT ![w].thr = Ev.t, ![w].q = Tail(@), ![w].run = k]
                      /\ tk' = [j \in DOMAIN tk |-> [tk[j] EXCEPT !.runs = IF j = k THEN 1 ELSE @, !.live = @ /\ ~(j \in tk[k].kills /\ tk[j].w = w)]]
                 ELSE tk[k].live /\ Ev.now >= tk[k].lo /\ ws' = [ws EXCEPT ![w].thr = Ev.t, ![w].run = k]
                      /\ tk' = [tk EXCEPT ![k].runs = @ + 1, ![k].live = tk[k].typ = "rep",
                                          ![k].lo = @ + tk[k].ms, ![k].hi = Ev.now + tk[k].ms]
         /\ UNCHANGED <<pend, cnt, pool, stopped, thread, nids, fresh>>
End == /\ Consume("end") /\ \E w \in DOMAIN ws : ws[w].thr = Ev.t /\ ws[w].run = Ev.k /\ ws' = [ws EXCEPT ![w].run = 0]
       /\ tk' = [tk EXCEPT ![Ev.k].done = TRUE] /\ UNCHANGED <<pend, cnt, pool, stopped, thread, nids, fresh>>
\* ------------------------------------------------------------------ futures
Due(k) == CASE tk[k].kind \in {"v", "z", "s"} -> "unit"
            [] tk[k].kind = "r" -> "result" \o ToString(k)
            [] tk[k].kind \in {"x", "y"} -> "boom" \o ToString(k)
            [] tk[k].kind = "n" -> "int" \o ToString(k)
FutE == /\ Consume("fut") /\ UNCHANGED vars
        /\ \/ tk[Ev.k].done /\ Ev.res = Due(Ev.k)
           \* a task that never ran, nor ever will
           \/ tk[Ev.k].runs = 0 /\ Ev.res = "broken" /\ ~thread
TNext == New \/ Call \/ Ret \/ IdleW \/ Tick \/ Begin \/ End \/ FutE \/ (Silent /\ \E t \in DOMAIN pend : Take(t) \/ Push(t) \/ Drop(t))
=============================================================================
