------------------------------- MODULE Stats -------------------------------
(* The statistics manager: counters and histograms of samples in four time ranges.
   Texts are sequences of byte codes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ranges == <<5, 60, 600, 3600>>
\* ------------------------------------------------------------ texts
RECURSIVE CutAt(_, _, _)
CutAt(s, c, acc) == IF s = <<>> THEN <<acc>> ELSE IF Head(s) = c THEN <<acc>> \o CutAt(Tail(s), c, <<>>) ELSE CutAt(Tail(s), c, Append(acc, Head(s)))
Filled(x) == x # <<>>
Cut(s, c) == SelectSeq(CutAt(s, c, <<>>), Filled)
Space == {9, 10, 13, 32}
RECURSIVE Front(_)
Front(s) == IF s # <<>> /\ s[1] \in Space THEN Front(Tail(s)) ELSE s
RECURSIVE Back(_)
Back(s) == IF s # <<>> /\ s[Len(s)] \in Space THEN Back(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == Front(Back(s))
Low(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
Methods == ("sum" :> <<115, 117, 109>>) @@ ("count" :> <<99, 111, 117, 110, 116>>) @@ ("avg" :> <<97, 118, 103>>) @@ ("rate" :> <<114, 97, 116, 101>>)
IsMethod(s) == \E m \in DOMAIN Methods : Methods[m] = s
MethodOf(s) == CHOOSE m \in DOMAIN Methods : Methods[m] = s
\* p and one to six digits: the first two before the point. In ten thousandths of a per cent
IsPct(s) == Len(s) \in 2..7 /\ s[1] = 112 /\ \A i \in 2..Len(s) : s[i] \in 48..57
Pow10 == <<1, 10, 100, 1000, 10000>>
RECURSIVE Num(_, _)
Num(s, acc) == IF s = <<>> THEN acc ELSE Num(Tail(s), acc * 10 + Head(s) - 48)
Units(s) == Num(Tail(s), 0) * (CASE Len(s) <= 3 -> 10000 [] Len(s) = 4 -> 1000 [] Len(s) = 5 -> 100 [] Len(s) = 6 -> 10 [] OTHER -> 1)
RangeTexts == <<<<53>>, <<54, 48>>, <<54, 48, 48>>, <<51, 54, 48, 48>>>>
IsRange(s) == \E i \in 1..4 : RangeTexts[i] = s
RangeOf(s) == Ranges[CHOOSE i \in 1..4 : RangeTexts[i] = s]
\* what a list of statistics names, in its order: methods and percentiles; the rest is left out
Listed(text) == LET ws == [i \in 1..Len(Cut(text, 44)) |-> Low(Trim(Cut(text, 44)[i]))] IN
                [m |-> SelectSeq(ws, IsMethod), p |-> SelectSeq(ws, IsPct)]
\* ------------------------------------------------------------ samples
\* a counter: [name, histo, w, lo, hi, listed, pts]; a point: [t, v]
In(c, r, now) == LET Keep(p) == p.t > now - r /\ p.t <= now IN SelectSeq(c.pts, Keep)
RECURSIVE SumP(_)
SumP(s) == IF s = <<>> THEN 0 ELSE Head(s).v + SumP(Tail(s))
Quot(a, b) == IF b = 0 THEN 0 ELSE IF a >= 0 THEN a \div b ELSE -((-a) \div b)      \* towards zero
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Elapsed(c, r, now) == IF c.pts = <<>> THEN 0 ELSE Min2(r, now - c.pts[1].t + 1)
Measure(c, m, r, now) ==
  LET s == In(c, r, now) IN
  CASE m = "sum" -> SumP(s)
    [] m = "count" -> Len(s)
    [] m = "avg" -> Quot(SumP(s), Len(s))
    [] m = "rate" -> Quot(SumP(s), Elapsed(c, r, now))
\* the bucket of the value that units (of a millionth) of the samples do not exceed, and units itself (see stats_probe)
Estimate(c, units, r, now) ==
  LET s == In(c, r, now)
      vals == [i \in 1..Len(s) |-> Min2(Max2(s[i].v, c.lo), c.hi)]
      n == Len(s)
      k == Min2(n, Max2(1, (units * n + 999999) \div 1000000))
      AtMost(x) == Cardinality({i \in 1..n : vals[i] <= x})
      x == CHOOSE y \in {vals[i] : i \in 1..n} : AtMost(y) >= k /\ \A z \in {vals[i] : i \in 1..n} : z < y => AtMost(z) < k
  IN IF n = 0 THEN units ELSE (c.lo + Quot(x - c.lo, c.w) * c.w) * 1000000 + units
\* ------------------------------------------------------------ reading
No == [ok |-> FALSE, v |-> 0]
Yes(v) == [ok |-> TRUE, v |-> v]
\* cs: id -> counter. Stats have the ids 1, 2, ...; histograms -1, -2, ...
Known(cs, n) == \E i \in DOMAIN cs : cs[i].name = n
IdOf(cs, n) == CHOOSE i \in DOMAIN cs : cs[i].name = n
ReadStat(cs, id, m, r, now) == Yes(Measure(cs[id], m, r, now))
ReadPct(cs, id, units, r, now) == IF id \in DOMAIN cs /\ cs[id].histo THEN Yes(Estimate(cs[id], units, r, now)) ELSE No
ReadMetric(cs, text, now) ==
  LET ps == Cut(text, 46) IN
  IF Len(ps) # 3 THEN No
  ELSE IF ~IsRange(ps[3]) \/ ~Known(cs, ps[1]) THEN No
  ELSE LET m == Low(ps[2])  id == IdOf(cs, ps[1]) IN
       IF IsMethod(m) THEN ReadStat(cs, id, MethodOf(m), RangeOf(ps[3]), now)
       ELSE IF IsPct(m) THEN ReadPct(cs, id, Units(m), RangeOf(ps[3]), now)
       ELSE No
\* everything that is listed, in all four ranges
Dot(a, b, c) == a \o <<46>> \o b \o <<46>> \o c
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Rows(cs, id, now) ==
  LET c == cs[id]
      Row(w, j) == [k |-> Dot(c.name, w, RangeTexts[j]), v |-> IF IsMethod(w) THEN Measure(c, MethodOf(w), Ranges[j], now) ELSE Estimate(c, Units(w), Ranges[j], now)]
      ws == c.listed.m \o (IF c.histo THEN c.listed.p ELSE <<>>)
  IN Flat([i \in 1..Len(ws) |-> [j \in 1..4 |-> Row(ws[i], j)]])
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
RECURSIVE Everything(_, _, _)
Everything(cs, ids, now) == IF ids = {} THEN <<>> ELSE LET i == CHOOSE i \in ids : TRUE IN Rows(cs, i, now) \o Everything(cs, ids \ {i}, now)
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Times(a, a[i]) = Times(b, a[i])
\* ------------------------------------------------------------ changing
NextId(cs, histo) == LET n == Cardinality({i \in DOMAIN cs : cs[i].histo = histo}) + 1 IN IF histo THEN -n ELSE n
Registered(cs, name, histo, w, lo, hi, text) ==
  IF Known(cs, name) THEN [cs EXCEPT ![IdOf(cs, name)].listed = Listed(text)]
  ELSE LET id == NextId(cs, histo) IN
       [i \in DOMAIN cs \cup {id} |-> IF i = id THEN [name |-> name, histo |-> histo, w |-> w, lo |-> lo, hi |-> hi, listed |-> Listed(text), pts |-> <<>>] ELSE cs[i]]
Added(cs, id, v, now) == [cs EXCEPT ![id].pts = Append(@, [t |-> now, v |-> v])]
=============================================================================
