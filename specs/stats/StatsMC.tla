------------------------------ MODULE StatsMC ------------------------------
(* What follows from the definitions: wider ranges see more, ids are stable and distinct, a percentile lies within the samples. *)
EXTENDS Stats
VARIABLES cs, now
Names == {<<97>>, <<98>>}
Texts == {<<115, 117, 109>>, <<32, 80, 57, 44, 82, 97, 116, 101>>}
RECURSIVE CountPts(_)
CountPts(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN Len(cs[i].pts) + CountPts(S \ {i})
Points == CountPts(DOMAIN cs)
Init == cs = <<>> /\ now = 4000
Free(n, h) == IF Known(cs, n) THEN cs[IdOf(cs, n)].histo = h ELSE TRUE
Next == \/ \E n \in Names, h \in BOOLEAN, t \in Texts : Free(n, h) /\ cs' = Registered(cs, n, h, 2, 0, 5, t) /\ now' = now
        \/ \E i \in DOMAIN cs, v \in {-1, 9} : Points < 2 /\ cs' = Added(cs, i, v, now) /\ now' = now
        \/ \E d \in {4004, 4061, 7601} : d > now /\ now' = d /\ cs' = cs
Spec == Init /\ [][Next]_<<cs, now>>
Wider == \A i \in DOMAIN cs : \A a, b \in 1..4 : a <= b => Measure(cs[i], "count", Ranges[a], now) <= Measure(cs[i], "count", Ranges[b], now)
Within == \A i \in DOMAIN cs : cs[i].histo => \A u \in {0, 500000, 990000} : LET e == Estimate(cs[i], u, 3600, now) IN e >= 0 /\ e <= 5 * 1000000 + u
Ids == \A i \in DOMAIN cs : (i < 0) = cs[i].histo /\ \A j \in DOMAIN cs : cs[i].name = cs[j].name => i = j
Kept == [][\A i \in DOMAIN cs : i \in DOMAIN cs' /\ cs'[i].name = cs[i].name /\ SubSeq(cs'[i].pts, 1, Len(cs[i].pts)) = cs[i].pts]_<<cs, now>>
AllListed == \A i \in DOMAIN cs : Len(Rows(cs, i, now)) = 4 * (Len(cs[i].listed.m) + (IF cs[i].histo THEN Len(cs[i].listed.p) ELSE 0))
=============================================================================
