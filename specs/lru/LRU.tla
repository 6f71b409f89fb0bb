-------------------------------- MODULE LRU --------------------------------
(* A cache of B = 2^Exp buckets.  A bucket is a sequence of <<key, value>>, most
   recently used first, of at most Cap(i) entries.  `ev` is the last operation,
   its result, and by how much it moved the counters. *)
EXTENDS Naturals, Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS Keys, Vals, Capacity, Exp, HintsUp   \* HintsUp: the hints plus one
VARIABLES b, ev
Hints == {h - 1 : h \in HintsUp}
vars == <<b, ev>>
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
B == Pow2(Exp)
Ids == 0..(B - 1)
\* all buckets have the same room, the last one also has the rest
Room(i, cap, n) == IF i = n - 1 THEN cap - ((n - 1) * (cap \div n)) ELSE cap \div n
Cap(i) == Room(i, Capacity, B)
\* a hint below zero is no hint: the key's hash (the key itself) decides
Where(k, h) == IF h >= 0 THEN h % B ELSE k % B

Has(s, k)  == \E i \in DOMAIN s : s[i][1] = k
At(s, k)   == CHOOSE i \in DOMAIN s : s[i][1] = k
ValOf(s, k) == s[At(s, k)][2]
Others(s, k) == SelectSeq(s, LAMBDA e : e[1] # k)
Front(s, k, v) == <<<<k, v>>>> \o Others(s, k)
\* insert, and what falls out of a full bucket
Full(s, k, cap) == ~Has(s, k) /\ Len(s) >= cap
Put(s, k, v, cap) == Front(IF Full(s, k, cap) THEN SubSeq(s, 1, Len(s) - 1) ELSE s, k, v)
Touch(s, k) == IF Has(s, k) THEN Front(s, k, ValOf(s, k)) ELSE s
N(x) == IF x THEN 1 ELSE 0
Found(s, k) == IF Has(s, k) THEN "v" \o ToString(ValOf(s, k)) ELSE "none"

Init == b = [i \in Ids |-> <<>>] /\ ev = [op |-> "init"]
Do(op, k, v, h, new, res, dt, dh, de) ==
    LET i == Where(k, h) IN
    /\ b' = [b EXCEPT ![i] = new]
    /\ ev' = [op |-> op, k |-> k, v |-> v, h |-> h, res |-> res, t |-> dt, hit |-> dh, e |-> de]
Insert(k, v, h) == LET i == Where(k, h) s == b[i] IN
    Do("insert", k, v, h, Put(s, k, v, Cap(i)), "-", 0, 0, N(Full(s, k, Cap(i))))
PutIfAbsent(k, v, h) == LET i == Where(k, h) s == b[i] IN
    IF Has(s, k) THEN Do("putif", k, v, h, Touch(s, k), Found(s, k), 1, 1, 0)
    ELSE Do("putif", k, v, h, Put(s, k, v, Cap(i)), "inserted", 1, 0, N(Full(s, k, Cap(i))))
Get(k, h) == LET s == b[Where(k, h)] IN Do("get", k, 0, h, Touch(s, k), Found(s, k), 1, N(Has(s, k)), 0)
Contains(k, h) == LET s == b[Where(k, h)] IN Do("contains", k, 0, h, s, IF Has(s, k) THEN "yes" ELSE "no", 0, 0, 0)
Evict(k, h) == LET s == b[Where(k, h)] IN Do("evict", k, 0, h, Others(s, k), "-", 0, 0, N(Has(s, k)))
Clear == /\ b' = [i \in Ids |-> <<>>]
         /\ ev' = [op |-> "clear", k |-> 0, v |-> 0, h |-> 0, res |-> "-", t |-> 0, hit |-> 0, e |-> 0]
Next == \/ \E k \in Keys, v \in Vals, h \in Hints : Insert(k, v, h) \/ PutIfAbsent(k, v, h)
        \/ \E k \in Keys, h \in Hints : Get(k, h) \/ Contains(k, h) \/ Evict(k, h)
        \/ Clear
---------------------------------------------------------------------------
TypeOK == \A i \in Ids : /\ Len(b[i]) <= Cap(i)
                         /\ \A x, y \in DOMAIN b[i] : b[i][x][1] = b[i][y][1] => x = y
Total(f) == LET RECURSIVE S(_) S(i) == IF i = B THEN 0 ELSE f[i] + S(i + 1) IN S(0)
WithinCapacity == Total([i \in Ids |-> Cap(i)]) = Capacity
\* only the least recently used entry falls out, and only of a full bucket
OnlyOldest == [][\A i \in Ids : (ev'.op \in {"insert", "putif"} /\ Len(b[i]) > 0) =>
                  \A x \in DOMAIN b[i] : ~Has(b'[i], b[i][x][1]) => x = Len(b[i]) /\ Len(b[i]) = Cap(i)]_vars
\* what was just used is what would fall out last
UsedIsFirst == [][ev'.op \in {"insert", "putif", "get"} => LET i == Where(ev'.k, ev'.h) IN Has(b'[i], ev'.k) => b'[i][1][1] = ev'.k]_vars
View == b
Emit == PrintT("@T " \o ToJson(<<b, ev', b'>>))
=============================================================================
