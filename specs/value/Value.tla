-------------------------------- MODULE Value --------------------------------
(* Values of the query language: what the operators give.  A value is a record
   with its type t; texts are sequences of byte codes, integers are BigInts,
   floats dyadic rationals. *)
EXTENDS BigInt, Calendar, FiniteSets
Empty == [t |-> "EMPTY"]
Null(k) == [t |-> "NULL", k |-> k]
BadType == Null("BAD_TYPE")
Overflow == Null("OVERFLOW")
DivByZero == Null("DIV_BY_ZERO")
Bool(b) == [t |-> "BOOL", b |-> b]
Str(c) == [t |-> "STRING", c |-> c]
IntV(n) == IF InI64(n) THEN [t |-> "INT", n |-> n] ELSE Overflow
IsNull(v) == v.t = "NULL"
IsEmpty(v) == v.t = "EMPTY"
IsNum(v) == v.t \in {"INT", "FLOAT"}
QOf(v) == IF v.t = "INT" THEN QI(v.n) ELSE Q(v.n, v.k)
Special(v) == v.t = "FLOAT" /\ v.sp # ""
Same(a, b) == a.t = b.t /\ a = b
\* |q| <= 1e-8, |q| < 1e-8
Tiny(q)  == QLe(QMul(QAbs(q), QI(Pow10(8))), QI(Bg(1)))
Within(q) == QLt(QMul(QAbs(q), QI(Pow10(8))), QI(Bg(1)))
---------------------------------------------------------------------------
\* Missing operands decide first: a null on the left, an empty value opposite to
\* anything but a null, a null or empty value on the right.
Missing(a, b) == IsNull(a) \/ IsEmpty(a) \/ IsNull(b) \/ IsEmpty(b)
MissingResult(a, b) == IF IsNull(a) THEN a ELSE IF IsNull(b) THEN b ELSE Empty
\* dates are numbered by days; Date's own numbering has every fourth year leap (C16),
\* which is the calendar's in the years used here
DateDay(v) == DayNum(v.y, v.mo, v.d)
IsDatePlus(r, v, n) == r.t = "DATE" /\ Valid(r.y, r.mo, r.d) /\ DateDay(r) = DateDay(v) + n
Small(b) == b.s * (Limb(b.d, 1) + 1000 * Limb(b.d, 2) + 1000000 * Limb(b.d, 3))
\* 24 million days lead out of the 65536 years that dates can have
FarDays(n) == Len(n.d) > 3 \/ Small(n) > 24000000 \/ Small(n) < -24000000
DatePlusOK(r, v, n) == IF FarDays(n) THEN Same(r, Null("OVERFLOW")) ELSE IsDatePlus(r, v, Small(n))
\* ------ text
Pad2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Pad4(n) == Pad2(n \div 100) \o Pad2(n % 100)
Pad6(n) == Pad2(n \div 10000) \o Pad4(n % 10000)
DateText(v) == BDec(Bg(v.y)) \o <<45>> \o Pad2(v.mo) \o <<45>> \o Pad2(v.d)
Hms(v) == Pad2(v.h) \o <<58>> \o Pad2(v.mi) \o <<58>> \o Pad2(v.s)
TimeText(v) == Hms(v) \o <<46>> \o Pad6(v.us)
DateTimeText(v) == DateText(v) \o <<84>> \o Hms(v) \o <<46>> \o BDec(Bg(v.us))
TrueText == <<116, 114, 117, 101>>
FalseText == <<102, 97, 108, 115, 101>>
BoolText(v) == IF v.b THEN TrueText ELSE FalseText
\* ------ reading numbers: [ok, int (no point, no exponent), n, e] = n * 10^e
Digit(c) == c \in 48..57
RECURSIVE Span(_, _)
Span(c, i) == IF i <= Len(c) /\ Digit(c[i]) THEN Span(c, i + 1) ELSE i      \* first non-digit from i
RECURSIVE Digits(_, _)
Digits(c, acc) == IF c = <<>> THEN acc ELSE Digits(SubSeq(c, 2, Len(c)), BAdd(BMul(acc, Bg(10)), Bg(c[1] - 48)))
RECURSIVE SmallDigits(_, _)
SmallDigits(c, acc) == IF c = <<>> THEN acc ELSE SmallDigits(SubSeq(c, 2, Len(c)), acc * 10 + c[1] - 48)
NoNumber == [ok |-> FALSE]
ReadNum(c0) ==
  LET sg == IF Len(c0) > 0 /\ c0[1] = 45 THEN -1 ELSE 1
      c == IF Len(c0) > 0 /\ c0[1] \in {43, 45} THEN SubSeq(c0, 2, Len(c0)) ELSE c0
      i == Span(c, 1)
      pt == i <= Len(c) /\ c[i] = 46
      j == IF pt THEN Span(c, i + 1) ELSE i
      ip == SubSeq(c, 1, i - 1)
      fp == IF pt THEN SubSeq(c, i + 1, j - 1) ELSE <<>>
      ex == j <= Len(c) /\ c[j] \in {69, 101}
      es == ex /\ j < Len(c) /\ c[j + 1] \in {43, 45}
      k == IF es THEN j + 2 ELSE j + 1
      m == IF ex THEN Span(c, k) ELSE j
      ev == IF ex /\ m > k THEN (IF es /\ c[j + 1] = 45 THEN -1 ELSE 1) * SmallDigits(SubSeq(c, k, m - 1), 0) ELSE 0
      n == Digits(ip \o fp, BZero)
  IN IF ip \o fp = <<>> \/ m <= Len(c) \/ (ex /\ m = k) THEN NoNumber
     ELSE [ok |-> TRUE, int |-> ~pt /\ ~ex, pt |-> pt, n |-> IF sg < 0 THEN BNeg(n) ELSE n, e |-> ev - Len(fp)]
\* |x - n*10^e| <= 2^-50 |x|, for a dyadic x
NearDec(x, n, e) == IF e >= 0 THEN Near(x, QI(BMul(n, Pow10(e))), x)
                    ELSE LET p == Pow10(-e) y == Q(BMul(x.n, p), x.k) IN Near(y, QI(n), y)
\* the text of a float reads back as it (to 2^-50), and is no longer than 17 digits need
FloatText(c, v) == LET r == ReadNum(c) IN Len(c) <= 26 /\ r.ok /\ NearDec(Q(v.n, v.k), r.n, r.e)
---------------------------------------------------------------------------
\* Is r what the operator gives for a and b?  (q is a quotient offered as a witness.)
FloatIs(r, x, m) == r.t = "FLOAT" /\ r.sp = "" /\ Near(Q(r.n, r.k), x, m)
CatOK(r, c) == Same(r, Str(c))
Starts(c, p) == Len(c) >= Len(p) /\ SubSeq(c, 1, Len(p)) = p
Ends(c, p) == Len(c) >= Len(p) /\ SubSeq(c, Len(c) - Len(p) + 1, Len(c)) = p
TextOf(v) == CASE v.t = "BOOL" -> BoolText(v) [] v.t = "INT" -> BDec(v.n) [] v.t = "STRING" -> v.c
               [] v.t = "DATE" -> DateText(v) [] v.t = "TIME" -> TimeText(v) [] v.t = "DATETIME" -> DateTimeText(v)
Texts == {"BOOL", "INT", "FLOAT", "STRING", "DATE", "TIME", "DATETIME"}
Listable == {"BOOL", "INT", "FLOAT", "STRING", "DATE", "TIME", "DATETIME", "VERTEX", "EDGE", "PATH", "MAP", "SET"}
AddOK(a, b, r) ==
  CASE a.t = "INT" /\ b.t = "INT" -> Same(r, IntV(BAdd(a.n, b.n)))
    [] IsNum(a) /\ IsNum(b) /\ ~(a.t = "INT" /\ b.t = "INT") -> FloatIs(r, QAdd(QOf(a), QOf(b)), QAdd(QAbs(QOf(a)), QAbs(QOf(b))))
    \* texts: anything with a text is joined to a string
    [] a.t = "STRING" /\ b.t = "FLOAT" -> r.t = "STRING" /\ Starts(r.c, a.c) /\ FloatText(SubSeq(r.c, Len(a.c) + 1, Len(r.c)), b)
    [] a.t = "FLOAT" /\ b.t = "STRING" -> r.t = "STRING" /\ Ends(r.c, b.c) /\ FloatText(SubSeq(r.c, 1, Len(r.c) - Len(b.c)), a)
    [] a.t = "STRING" /\ b.t \in Texts \ {"FLOAT"} -> CatOK(r, a.c \o TextOf(b))
    [] a.t \in Texts \ {"FLOAT", "STRING"} /\ b.t = "STRING" -> CatOK(r, TextOf(a) \o b.c)
    [] a.t = "INT" /\ b.t = "DATE" -> DatePlusOK(r, b, a.n)
    [] a.t = "DATE" /\ b.t = "INT" -> DatePlusOK(r, a, b.n)
    \* lists are joined, and take an element at either end
    [] a.t = "LIST" /\ b.t = "LIST" -> Same(r, [t |-> "LIST", v |-> a.v \o b.v])
    [] a.t = "LIST" /\ b.t \in Listable -> Same(r, [t |-> "LIST", v |-> Append(a.v, b)])
    [] a.t \in Listable /\ b.t = "LIST" -> Same(r, [t |-> "LIST", v |-> <<a>> \o b.v])
    [] OTHER -> Same(r, BadType)
SubOK(a, b, r) ==
  CASE a.t = "INT" /\ b.t = "INT" -> Same(r, IntV(BSub(a.n, b.n)))
    [] IsNum(a) /\ IsNum(b) /\ ~(a.t = "INT" /\ b.t = "INT") -> FloatIs(r, QSub(QOf(a), QOf(b)), QAdd(QAbs(QOf(a)), QAbs(QOf(b))))
    [] a.t = "DATE" /\ b.t = "INT" -> DatePlusOK(r, a, BNeg(b.n))
    [] a.t = "DATE" /\ b.t = "DATE" -> Same(r, IntV(Bg(DateDay(a) - DateDay(b))))
    [] OTHER -> Same(r, BadType)
MulOK(a, b, r) ==
  CASE a.t = "INT" /\ b.t = "INT" -> Same(r, IntV(BMul(a.n, b.n)))
    [] IsNum(a) /\ IsNum(b) /\ ~(a.t = "INT" /\ b.t = "INT") -> LET x == QMul(QOf(a), QOf(b)) IN FloatIs(r, x, x)
    [] OTHER -> Same(r, BadType)
\* division by an integer zero or by a float within 1e-8 of zero
Zero(b) == IF b.t = "INT" THEN b.n.s = 0 ELSE Tiny(QOf(b))
DivOK(a, b, r) ==
  CASE IsNum(a) /\ IsNum(b) /\ Zero(b) -> Same(r, DivByZero)
    [] a.t = "INT" /\ b.t = "INT" /\ ~Zero(b) -> IF a.n = MinI64 /\ b.n = Bg(-1) THEN Same(r, Overflow) ELSE r.t = "INT" /\ IsQuot(a.n, b.n, r.n)
    [] IsNum(a) /\ IsNum(b) /\ ~Zero(b) /\ ~(a.t = "INT" /\ b.t = "INT")
         -> r.t = "FLOAT" /\ r.sp = "" /\ LET x == QMul(QOf(r), QOf(b)) IN Near(x, QOf(a), QOf(a))
    [] OTHER -> Same(r, BadType)
\* the remainder has the sign of the dividend (q: the quotient, a witness)
ModOK(a, b, r, q) ==
  CASE IsNum(a) /\ IsNum(b) /\ Zero(b) -> Same(r, DivByZero)
    [] a.t = "INT" /\ b.t = "INT" /\ ~Zero(b) -> r.t = "INT" /\ IsDivMod(a.n, b.n, q, r.n)
    [] IsNum(a) /\ IsNum(b) /\ ~Zero(b) /\ ~(a.t = "INT" /\ b.t = "INT")
         -> /\ r.t = "FLOAT" /\ r.sp = "" /\ QEq(QOf(a), QAdd(QMul(QI(q), QOf(b)), QOf(r)))
            /\ QLt(QAbs(QOf(r)), QAbs(QOf(b))) /\ r.n.s \in {0, QOf(a).n.s}
    [] OTHER -> Same(r, BadType)
BitOp(op, x, y) == IF op = "&" THEN x * y ELSE IF op = "|" THEN (IF x + y > 0 THEN 1 ELSE 0) ELSE ((x + y) % 2)
BitOK(op, a, b, r) == IF a.t = "INT" /\ b.t = "INT"
  THEN r.t = "INT" /\ InI64(r.n) /\ LET x == Bits64(a.n) y == Bits64(b.n) IN Bits64(r.n) = [i \in 1..64 |-> BitOp(op, x[i], y[i])]
  ELSE Same(r, BadType)
LogicOK(op, a, b, r) == IF a.t = "BOOL" /\ b.t = "BOOL" THEN Same(r, Bool(IF op = "&&" THEN a.b /\ b.b ELSE a.b \/ b.b)) ELSE Same(r, BadType)
NegOK(a, r) == CASE IsNull(a) \/ IsEmpty(a) -> Same(r, a) [] a.t = "INT" -> Same(r, IntV(BNeg(a.n)))
                 [] a.t = "FLOAT" -> r.t = "FLOAT" /\ r.sp = "" /\ QEq(QOf(r), QNeg(QOf(a))) [] OTHER -> Same(r, BadType)
NotOK(a, r) == CASE IsNull(a) \/ IsEmpty(a) -> Same(r, a) [] a.t = "BOOL" -> Same(r, Bool(~a.b)) [] OTHER -> Same(r, BadType)
\* conversions
Lower(c) == [i \in 1..Len(c) |-> IF c[i] \in 65..90 THEN c[i] + 32 ELSE c[i]]
ToBoolOK(a, r) == CASE IsNull(a) \/ IsEmpty(a) -> Same(r, Null("NULL")) [] a.t = "BOOL" -> Same(r, a)
                    [] a.t = "STRING" -> Same(r, IF Lower(a.c) = TrueText THEN Bool(TRUE) ELSE IF Lower(a.c) = FalseText THEN Bool(FALSE) ELSE Null("NULL"))
                    [] OTHER -> Same(r, BadType)
ToFloatOK(a, r) == CASE IsNull(a) \/ IsEmpty(a) -> Same(r, Null("NULL")) [] a.t = "FLOAT" -> Same(r, a)
                     [] a.t = "INT" -> FloatIs(r, QI(a.n), QI(a.n))
                     [] a.t = "STRING" -> LET x == ReadNum(a.c) IN
                          IF x.ok THEN r.t = "FLOAT" /\ r.sp = "" /\ NearDec(QOf(r), x.n, x.e) ELSE Same(r, Null("NULL"))
                     [] OTHER -> Same(r, BadType)
\* r is x cut towards zero
Trunc(x, r) == /\ r.s \in {0, x.n.s} /\ QLe(QAbs(QI(r)), QAbs(x)) /\ QLt(QAbs(x), QAdd(QAbs(QI(r)), QI(Bg(1))))
Beyond(x) == QLt(QI(MaxI64), x) \/ QLt(x, QI(MinI64))
ToIntOK(a, r) == CASE IsNull(a) \/ IsEmpty(a) -> Same(r, Null("NULL")) [] a.t = "INT" -> Same(r, a)
                   [] a.t = "FLOAT" -> LET x == QOf(a) IN
                        r.t = "INT" /\ IF QLt(QI(MaxI64), x) THEN r.n = MaxI64 ELSE IF QLt(x, QI(MinI64)) THEN r.n = MinI64 ELSE Trunc(x, r.n)
                   [] a.t = "STRING" -> LET x == ReadNum(a.c) IN
                        IF ~x.ok THEN Same(r, Null("NULL"))
                        ELSE IF x.int THEN Same(r, IntV(x.n))
                        \* with a point: the float nearest to the text, cut (ToIntOfPointOK);
                        \* an exponent without a point: left open
                        ELSE r.t = "INT" \/ Same(r, Null("NULL")) \/ Same(r, Overflow)
                   [] OTHER -> Same(r, BadType)
ToIntOfPointOK(d, r) == IF Beyond(QOf(d)) THEN Same(r, Overflow) ELSE r.t = "INT" /\ Trunc(QOf(d), r.n)
=============================================================================
