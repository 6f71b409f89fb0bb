------------------------------- MODULE BigInt -------------------------------
(* Integers of any size: sign and limbs base 1000, least significant first, no
   leading zero limbs; and dyadic rationals [n |-> integer, k |-> Nat] = n / 2^k.
   (TLC's own integers have 32 bits.) *)
EXTENDS Integers, Sequences, TLC
BZero == [s |-> 0, d |-> <<>>]
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Strip(SubSeq(d, 1, Len(d) - 1)) ELSE d
Mk(s, d) == LET e == Strip(d) IN IF e = <<>> THEN BZero ELSE [s |-> s, d |-> e]
RECURSIVE FromNat(_)
FromNat(m) == IF m = 0 THEN <<>> ELSE <<m % 1000>> \o FromNat(m \div 1000)
\* the small integer n
Bg(n) == IF n = 0 THEN BZero ELSE IF n > 0 THEN [s |-> 1, d |-> FromNat(n)] ELSE [s |-> -1, d |-> FromNat(-n)]
\* magnitudes
RECURSIVE CmpM(_, _, _)
CmpM(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpM(a, b, i - 1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpM(a, b, Len(a))
RECURSIVE AddM(_, _, _, _)
AddM(a, b, i, c) == IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET x == Limb(a, i) + Limb(b, i) + c IN <<x % 1000>> \o AddM(a, b, i + 1, x \div 1000)
RECURSIVE SubM(_, _, _, _)    \* a >= b
SubM(a, b, i, c) == IF i > Len(a) THEN <<>>
                    ELSE LET x == a[i] - Limb(b, i) - c IN <<x % 1000>> \o SubM(a, b, i + 1, IF x < 0 THEN 1 ELSE 0)
RECURSIVE MulL(_, _, _, _)    \* by one limb
MulL(a, m, i, c) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE FromNat(c))
                    ELSE LET x == a[i] * m + c IN <<x % 1000>> \o MulL(a, m, i + 1, x \div 1000)
RECURSIVE MulM(_, _, _)
MulM(a, b, i) == IF i > Len(b) THEN <<>> ELSE AddM(MulL(a, b[i], 1, 0), LET r == MulM(a, b, i + 1) IN IF r = <<>> THEN r ELSE <<0>> \o r, 1, 0)
BNeg(a) == [a EXCEPT !.s = -a.s]
BAdd(a, b) == IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
              ELSE IF a.s = b.s THEN [s |-> a.s, d |-> AddM(a.d, b.d, 1, 0)]
              ELSE LET c == Cmp(a.d, b.d) IN IF c = 0 THEN BZero
                   ELSE IF c > 0 THEN Mk(a.s, SubM(a.d, b.d, 1, 0)) ELSE Mk(b.s, SubM(b.d, a.d, 1, 0))
BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == IF a.s = 0 \/ b.s = 0 THEN BZero ELSE Mk(a.s * b.s, MulM(a.d, b.d, 1))
BCmp(a, b) == IF a.s # b.s THEN (IF a.s < b.s THEN -1 ELSE 1) ELSE IF a.s >= 0 THEN Cmp(a.d, b.d) ELSE Cmp(b.d, a.d)
BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0
BAbs(a) == [a EXCEPT !.s = IF a.s < 0 THEN 1 ELSE a.s]
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN Bg(1) ELSE IF k <= 20 THEN Bg(2 ^ k)
           ELSE LET h == Pow2(k \div 2) q == BMul(h, h) IN IF k % 2 = 0 THEN q ELSE BMul(q, Bg(2))
RECURSIVE Pow10(_)
Pow10(k) == IF k % 3 = 0 THEN [s |-> 1, d |-> [i \in 1..(k \div 3 + 1) |-> IF i = k \div 3 + 1 THEN 1 ELSE 0]] ELSE BMul(Bg(10), Pow10(k - 1))
MaxI64 == [s |-> 1,  d |-> <<807, 775, 854, 36, 372, 223, 9>>]
MinI64 == [s |-> -1, d |-> <<808, 775, 854, 36, 372, 223, 9>>]
InI64(a) == BLe(MinI64, a) /\ BLe(a, MaxI64)
\* q is a divided by b cut towards zero, with remainder r
IsDivMod(a, b, q, r) == a = BAdd(BMul(q, b), r) /\ BLt(BAbs(r), BAbs(b)) /\ r.s \in {0, a.s}
IsQuot(a, b, q) == IsDivMod(a, b, q, BSub(a, BMul(q, b)))
\* halving a magnitude, and two's complement bits (64)
RECURSIVE HalfM(_, _, _)
HalfM(a, i, c) == IF i = 0 THEN <<>> ELSE LET x == c * 1000 + a[i] IN HalfM(a, i - 1, x % 2) \o <<x \div 2>>
Half(a) == Strip(HalfM(a, Len(a), 0))
RECURSIVE BitsM(_, _)
BitsM(a, n) == IF n = 0 THEN <<>> ELSE <<IF a = <<>> THEN 0 ELSE a[1] % 2>> \o BitsM(Half(a), n - 1)
Bits64(a) == IF a.s >= 0 THEN BitsM(a.d, 64) ELSE LET b == BitsM(BSub(BNeg(a), Bg(1)).d, 64) IN [i \in 1..64 |-> 1 - b[i]]
\* decimal digits (codes)
RECURSIVE DecN(_)
DecN(n) == IF n < 10 THEN <<48 + n>> ELSE DecN(n \div 10) \o <<48 + (n % 10)>>
D3(n) == <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
RECURSIVE DecM(_, _)
DecM(a, i) == IF i = 0 THEN <<>> ELSE (IF i = Len(a) THEN DecN(a[i]) ELSE D3(a[i])) \o DecM(a, i - 1)
BDec(a) == IF a.s = 0 THEN <<48>> ELSE (IF a.s < 0 THEN <<45>> ELSE <<>>) \o DecM(a.d, Len(a.d))
\* dyadic rationals
Q(n, k) == [n |-> n, k |-> k]
QI(n) == Q(n, 0)
Scale(q, k) == BMul(q.n, Pow2(k - q.k))            \* k >= q.k
MaxK(a, b) == IF a.k > b.k THEN a.k ELSE b.k
QCmp(a, b) == LET k == MaxK(a, b) IN IF a.n.s # b.n.s THEN (IF a.n.s < b.n.s THEN -1 ELSE 1) ELSE BCmp(Scale(a, k), Scale(b, k))
QLt(a, b) == QCmp(a, b) < 0
QLe(a, b) == QCmp(a, b) <= 0
QEq(a, b) == QCmp(a, b) = 0
QAdd(a, b) == LET k == MaxK(a, b) IN Q(BAdd(Scale(a, k), Scale(b, k)), k)
QNeg(a) == Q(BNeg(a.n), a.k)
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == Q(BMul(a.n, b.n), a.k + b.k)
QAbs(a) == Q(BAbs(a.n), a.k)
\* r is x up to the part 2^-50 of m
Near(r, x, m) == QLe(QAbs(QSub(r, x)), Q(BAbs(m.n), m.k + 50))
=============================================================================
