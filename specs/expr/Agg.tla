--------------------------------- MODULE Agg ---------------------------------
(* Aggregates: what they give for the values seen so far.  Nulls and empty values do not
   count.  A bad null, once there, stays. *)
EXTENDS Fun
AggNames == [COUNT |-> <<67, 79, 85, 78, 84>>, SUM |-> <<83, 85, 77>>, AVG |-> <<65, 86, 71>>, MAX |-> <<77, 65, 88>>, MIN |-> <<77, 73, 78>>, STD |-> <<83, 84, 68>>,
  BIT_AND |-> <<66, 73, 84, 95, 65, 78, 68>>, BIT_OR |-> <<66, 73, 84, 95, 79, 82>>, BIT_XOR |-> <<66, 73, 84, 95, 88, 79, 82>>,
  COLLECT |-> <<67, 79, 76, 76, 69, 67, 84>>, COLLECT_SET |-> <<67, 79, 76, 76, 69, 67, 84, 95, 83, 69, 84>>, NONE |-> <<>>]
AggKnown(w) == \E n \in DOMAIN AggNames : AggNames[n] = w
AggOf(w) == CHOOSE n \in DOMAIN AggNames : AggNames[n] = w
Counts(v) == ~IsNull(v) /\ ~IsEmpty(v)
Counted(s) == SelectSeq(s, Counts)
RECURSIVE Uniq(_, _)
Uniq(s, acc) == IF s = <<>> THEN acc ELSE Uniq(SubSeq(s, 2, Len(s)), IF \E i \in 1..Len(acc) : Eq(acc[i], s[1]) THEN acc ELSE Append(acc, s[1]))
\* up to and with the first value that is none of these types: afterwards nothing matters
Bad(s, types) == \E i \in 1..Len(s) : s[i].t \notin types
UpToBad(s, types) == IF Bad(s, types) THEN SubSeq(s, 1, (CHOOSE i \in 1..Len(s) : s[i].t \notin types /\ \A j \in 1..i - 1 : s[j].t \in types) - 1) ELSE s
RECURSIVE Summed(_, _)
Summed(s, acc) == IF s = <<>> \/ IsNull(acc) THEN acc ELSE Summed(SubSeq(s, 2, Len(s)), IF IsOpen(acc) THEN acc ELSE Plus(acc, s[1]))
RECURSIVE QSum(_)
QSum(s) == IF s = <<>> THEN QI(BZero) ELSE QAdd(QOf(s[1]), QSum(SubSeq(s, 2, Len(s))))
RECURSIVE QSumSq(_)
QSumSq(s) == IF s = <<>> THEN QI(BZero) ELSE QAdd(QMul(QOf(s[1]), QOf(s[1])), QSumSq(SubSeq(s, 2, Len(s))))
RECURSIVE QSumAbs(_)
QSumAbs(s) == IF s = <<>> THEN QI(BZero) ELSE QAdd(QAbs(QOf(s[1])), QSumAbs(SubSeq(s, 2, Len(s))))
\* the greatest (least) that came first
RECURSIVE Best(_, _, _)
Best(s, acc, max) == IF s = <<>> THEN acc ELSE Best(SubSeq(s, 2, Len(s)), IF (IF max THEN Lt(acc, s[1]) ELSE Lt(s[1], acc)) THEN s[1] ELSE acc, max)
BitsOf(s) == [i \in 1..Len(s) |-> Bits64(s[i].n)]
BitAll(n, b, i) == CASE n = "BIT_AND" -> IF \A j \in 1..Len(b) : b[j][i] = 1 THEN 1 ELSE 0
                     [] n = "BIT_OR" -> IF \E j \in 1..Len(b) : b[j][i] = 1 THEN 1 ELSE 0
                     [] n = "BIT_XOR" -> Cardinality({j \in 1..Len(b) : b[j][i] = 1}) % 2
\* is r right after the values s (s without those that do not count: c)?
AggValue(n, s, r) ==
  LET c == Counted(s) IN
  CASE n = "NONE" -> IF s = <<>> THEN Same(r, NullV) ELSE SameV(r, s[Len(s)])
    [] s = <<>> -> Same(r, NullV)
    [] n = "COUNT" -> Same(r, Int32(Len(c)))
    [] n = "SUM" -> LET u == UpToBad(c, Num) x == Summed(u, Int32(0)) IN
                    IF IsNull(x) THEN Same(r, x) ELSE IF Bad(c, Num) THEN Same(r, BadType)
                    ELSE IF IsOpen(x) THEN FloatR(r) /\ Near(QOf(r), QSum(c), QMul(QSumAbs(c), QI(Bg(64)))) ELSE SameV(r, x)
    [] n = "AVG" -> IF Bad(c, Num) THEN Same(r, BadType) ELSE IF c = <<>> THEN Same(r, NullV)
                    ELSE FloatR(r) /\ Near(QMul(QOf(r), QI(Bg(Len(c)))), QSum(c), QMul(QSumAbs(c), QI(Bg(64))))
    \* n^2 r^2 = n sum x^2 - (sum x)^2
    [] n = "STD" -> IF Bad(c, Num) THEN Same(r, BadType) ELSE IF c = <<>> THEN Same(r, NullV)
                    ELSE FloatR(r) /\ r.n.s >= 0 /\ LET m == QI(Bg(Len(c))) x == QMul(QMul(m, m), QMul(QOf(r), QOf(r))) y == QSub(QMul(m, QSumSq(c)), QMul(QSum(c), QSum(c)))
                                                    IN Near(x, y, QMul(QAdd(QMul(m, QSumSq(c)), QI(Bg(1))), QI(Bg(4096))))
    [] n \in {"MAX", "MIN"} -> IF c = <<>> THEN Same(r, NullV) ELSE SameV(r, Best(Tail(c), c[1], n = "MAX"))
    [] n \in {"BIT_AND", "BIT_OR", "BIT_XOR"} -> IF Bad(c, {"INT"}) THEN Same(r, BadType) ELSE IF c = <<>> THEN Same(r, NullV)
                    ELSE r.t = "INT" /\ InI64(r.n) /\ LET b == BitsOf(c) IN Bits64(r.n) = [i \in 1..64 |-> BitAll(n, b, i)]
    [] n = "COLLECT" -> SameV(r, ListOf(c))
    [] n = "COLLECT_SET" -> SameV(r, [t |-> "SET", v |-> Uniq(c, <<>>)])
\* rs: the result before any value, and after each
AggIs(w, distinct, vs, ok, rs) ==
  LET u == Upper(w) IN
  IF ~AggKnown(u) THEN ~ok
  ELSE ok /\ Len(rs) = Len(vs) + 1
       /\ \A i \in 0..Len(vs) : AggValue(AggOf(u), IF distinct THEN Uniq(SubSeq(vs, 1, i), <<>>) ELSE SubSeq(vs, 1, i), rs[i + 1])
=============================================================================
