-------------------------------- MODULE Real --------------------------------
(* Real numbers as integers scaled by 10^24 (eight limbs), and the elementary functions
   by their series; good to about 10^-20 for arguments up to 30. *)
EXTENDS BigInt
Frac == 8
Up(b) == IF b.s = 0 THEN b ELSE [b EXCEPT !.d = [i \in 1..Frac |-> 0] \o b.d]
Down(b) == IF Len(b.d) <= Frac THEN BZero ELSE Mk(b.s, SubSeq(b.d, Frac + 1, Len(b.d)))
RInt(n) == Up(Bg(n))
RMul(a, b) == Down(BMul(a, b))
RAdd(a, b) == BAdd(a, b)
RSub(a, b) == BSub(a, b)
\* by a small number n > 0
RECURSIVE DivM(_, _, _, _)
DivM(a, n, i, c) == IF i = 0 THEN <<>> ELSE LET x == c * 1000 + a[i] IN DivM(a, n, i - 1, x % n) \o <<x \div n>>
RDiv(a, n) == Mk(a.s, DivM(a.d, n, Len(a.d), 0))
\* n / 2^k
RECURSIVE Shift(_, _)
Shift(a, k) == IF k <= 0 \/ a.s = 0 THEN a ELSE IF k > 20 THEN Shift(RDiv(a, 1048576), k - 20) ELSE RDiv(a, 2 ^ k)
RealOf(q) == Shift(Up(q.n), q.k)
RPi  == Mk(1, <<643, 462, 238, 793, 589, 653, 592, 141, 3>>)
RE   == Mk(1, <<287, 360, 235, 45, 459, 828, 281, 718, 2>>)
RLn2 == Mk(1, <<232, 417, 309, 945, 559, 180, 147, 693>>)
RLog2E == Mk(1, <<925, 359, 407, 963, 888, 40, 695, 442, 1>>)
RLn10 == Mk(1, <<991, 17, 684, 45, 994, 92, 585, 302, 2>>)
Small0(a) == Len(a.d) <= 1
\* the sum of the terms t, t*y/((m+1)(m+2)).., or of every term for step 1
RECURSIVE ExpSum(_, _, _, _)
ExpSum(x, t, k, acc) == IF Small0(t) \/ k > 200 THEN acc ELSE LET u == RDiv(RMul(t, x), k) IN ExpSum(x, u, k + 1, RAdd(acc, u))
Exp(x) == ExpSum(x, RInt(1), 1, RInt(1))
RECURSIVE TrigSum(_, _, _, _)
TrigSum(y, t, k, acc) == IF Small0(t) \/ k > 300 THEN acc ELSE LET u == BNeg(RDiv(RMul(t, y), k * (k + 1))) IN TrigSum(y, u, k + 2, RAdd(acc, u))
Sin(x) == TrigSum(RMul(x, x), x, 2, x)
Cos(x) == TrigSum(RMul(x, x), RInt(1), 1, RInt(1))
\* r is x up to 10^-9 of the greater of 1 and |m|
Close(r, x, m) == BLe(BMul(BAbs(RSub(r, x)), Pow10(9)), IF BLt(BAbs(m), RInt(1)) THEN RInt(1) ELSE BAbs(m))
=============================================================================
