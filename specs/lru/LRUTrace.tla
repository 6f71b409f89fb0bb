----------------------------- MODULE LRUTrace -----------------------------
(* Concurrent use: an operation is a call, one atomic step (clear: one per bucket)
   and a return.  Counters are read as sums over the buckets, each read at a
   moment of its own. *)
EXTENDS TraceBase, Integers, FiniteSets
VARIABLES b, cnt, pc, p      \* p: parameters of the cache
vars == <<b, cnt, pc, p>>
L == INSTANCE LRU WITH Keys <- {}, Vals <- {}, Capacity <- 2, Exp <- 0, HintsUp <- {}, ev <- [op |-> "-"]
Threads == 0..7
Idle == [f |-> "-", ph |-> "idle", res |-> "-", todo |-> {}]
TInit == TraceStart /\ b = <<>> /\ cnt = <<>> /\ pc = [t \in Threads |-> Idle] /\ p = [cap |-> 0, n |-> 0]
New == /\ Consume("new") /\ p' = [cap |-> Ev.cap, n |-> Ev.n]
       /\ b' = [i \in 0..(Ev.n - 1) |-> <<>>]
       /\ cnt' = [i \in 0..(Ev.n - 1) |-> <<0, 0, 0>>] /\ UNCHANGED pc
Call == /\ Consume("call") /\ pc[Ev.t].ph = "idle"
        /\ pc' = [pc EXCEPT ![Ev.t] = [f |-> Ev.f, k |-> Ev.k, v |-> Ev.v, h |-> Ev.h, ph |-> "start", res |-> "-",
                                       todo |-> IF Ev.f \in {"clear", "total", "hits", "evicts"} THEN DOMAIN b ELSE {}, sum |-> 0]]
        /\ UNCHANGED <<b, cnt, p>>
Ret == /\ Consume("ret") /\ pc[Ev.t].ph = "done" /\ pc[Ev.t].res = Ev.res
       /\ pc' = [pc EXCEPT ![Ev.t] = Idle] /\ UNCHANGED <<b, cnt, p>>
Add(i, dt, dh, de) == cnt' = [cnt EXCEPT ![i] = <<@[1] + dt, @[2] + dh, @[3] + de>>]
\* (caches of many buckets are only used by one thread here: any order will do)
Pick(s) == IF p.n <= 2 THEN s ELSE {CHOOSE i \in s : \A j \in s : i <= j}
Finish(t, r) == pc' = [pc EXCEPT ![t].ph = "done", ![t].res = r]
Wh(q) == IF q.h >= 0 THEN q.h % p.n ELSE q.k % p.n
Step(t) == LET q == pc[t] IN
  /\ q.ph = "start" /\ UNCHANGED p
  /\ \/ /\ q.f \in {"insert", "putif", "get", "contains", "evict"}
        /\ LET i == Wh(q) s == b[i] c == L!Room(i, p.cap, p.n) has == L!Has(s, q.k) full == L!Full(s, q.k, c) IN
           CASE q.f = "insert" -> b' = [b EXCEPT ![i] = L!Put(s, q.k, q.v, c)] /\ Add(i, 0, 0, L!N(full)) /\ Finish(t, "-")
             [] q.f = "putif" /\ has -> b' = [b EXCEPT ![i] = L!Touch(s, q.k)] /\ Add(i, 1, 1, 0) /\ Finish(t, L!Found(s, q.k))
             [] q.f = "putif" /\ ~has -> b' = [b EXCEPT ![i] = L!Put(s, q.k, q.v, c)] /\ Add(i, 1, 0, L!N(full)) /\ Finish(t, "inserted")
             [] q.f = "get" -> b' = [b EXCEPT ![i] = L!Touch(s, q.k)] /\ Add(i, 1, L!N(has), 0) /\ Finish(t, L!Found(s, q.k))
             [] q.f = "contains" -> UNCHANGED <<b, cnt>> /\ Finish(t, IF has THEN "yes" ELSE "no")
             [] q.f = "evict" -> b' = [b EXCEPT ![i] = L!Others(s, q.k)] /\ Add(i, 0, 0, L!N(has)) /\ Finish(t, "-")
     \/ /\ q.f = "clear" /\ q.todo # {}
        /\ \E i \in Pick(q.todo) : /\ b' = [b EXCEPT ![i] = <<>>] /\ cnt' = [cnt EXCEPT ![i] = <<0, 0, 0>>]
                             /\ pc' = [pc EXCEPT ![t].todo = @ \ {i}, ![t].ph = IF q.todo = {i} THEN "done" ELSE @]
     \/ /\ q.f \in {"total", "hits", "evicts"} /\ q.todo # {}
        /\ \E i \in Pick(q.todo) : LET x == q.sum + cnt[i][IF q.f = "total" THEN 1 ELSE IF q.f = "hits" THEN 2 ELSE 3] IN
              pc' = [pc EXCEPT ![t].todo = @ \ {i}, ![t].sum = x, ![t].res = ToString(x), ![t].ph = IF q.todo = {i} THEN "done" ELSE @]
        /\ UNCHANGED <<b, cnt>>
\* everybody is done (nothing here may block); what is in which bucket
Quiet == /\ Consume("quiet") /\ UNCHANGED vars /\ \A t \in Threads : pc[t].ph = "idle" /\ Ev.b = <<>>
TStep == Silent /\ \E t \in Threads : Step(t)
TNext == New \/ Call \/ Ret \/ Quiet \/ TStep
=============================================================================
