--------------------------------- MODULE Ops ---------------------------------
(* The operators of the query language as functions.  Where the result is left open
   here (floats that need rounding, and the like) it is Free, which spreads; the
   operators themselves are decided by Value. *)
EXTENDS Shape
Free == [t |-> "OPEN"]
IsOpen(v) == v.t = "OPEN"
AnyOpen(s) == \E i \in 1..Len(s) : IsOpen(s[i])
Fits32(b) == Len(b.d) <= 3
\* the float n / 2^k, where it is exact
RECURSIVE Norm(_, _)
Norm(n, k) == IF n.s = 0 THEN <<BZero, 0>> ELSE IF k > 0 /\ n.d[1] % 2 = 0 THEN Norm(Mk(n.s, Half(n.d)), k - 1) ELSE <<n, k>>
Flt(q) == LET x == Norm(q.n, q.k) IN IF Len(x[1].d) > 5 \/ x[2] > 60 THEN Free ELSE [t |-> "FLOAT", sp |-> "", n |-> x[1], k |-> x[2]]
Wide(v) == IF v.t = "FLOAT" THEN v.sp # "" \/ Len(v.n.d) > 5 ELSE v.t = "INT" /\ Len(v.n.d) > 5
Mixed(a, b) == IsNum(a) /\ IsNum(b) /\ ~(a.t = "INT" /\ b.t = "INT")
IntOf(n) == [t |-> "INT", n |-> n]
Int32(n) == IntOf(Bg(n))
ListOf(s) == [t |-> "LIST", v |-> s]
\* dates: the day n, as a date
RECURSIVE YearFrom(_, _)
YearFrom(n, y) == IF n < YearStart(y) THEN YearFrom(n, y - 1) ELSE IF n >= YearStart(y + 1) THEN YearFrom(n, y + 1) ELSE y
DateOf(n) == LET y == YearFrom(n, 1970 + n \div 366) m == CHOOSE i \in 1..12 : n >= DayNum(y, i, 1) /\ n < DayNum(y, i, 1) + MonthLen(y, i)
             IN [t |-> "DATE", y |-> y, mo |-> m, d |-> n - DayNum(y, m, 1) + 1]
\* within the years 1901 to 2099 Date counts as the calendar does
InYears(n) == n > -25000 /\ n < 47000
DatePlus(v, n) == IF FarDays(n) THEN Null("OVERFLOW") ELSE IF v.y \in 1902..2098 /\ Fits32(n) /\ InYears(DateDay(v) + Small(n)) THEN DateOf(DateDay(v) + Small(n)) ELSE Free
Both(a, b, f) == IF IsOpen(a) \/ IsOpen(b) THEN Free ELSE IF Missing(a, b) THEN MissingResult(a, b) ELSE f
Plus(a, b) == Both(a, b,
  CASE a.t = "INT" /\ b.t = "INT" -> IntV(BAdd(a.n, b.n))
    [] Mixed(a, b) -> IF Wide(a) \/ Wide(b) THEN Free ELSE Flt(QAdd(QOf(a), QOf(b)))
    [] {a.t, b.t} = {"STRING", "FLOAT"} -> Free
    [] a.t = "STRING" /\ b.t \in Texts \ {"FLOAT"} -> Str(a.c \o TextOf(b))
    [] a.t \in Texts \ {"FLOAT", "STRING"} /\ b.t = "STRING" -> Str(TextOf(a) \o b.c)
    [] a.t = "INT" /\ b.t = "DATE" -> DatePlus(b, a.n)
    [] a.t = "DATE" /\ b.t = "INT" -> DatePlus(a, b.n)
    [] a.t = "LIST" /\ b.t = "LIST" -> ListOf(a.v \o b.v)
    [] a.t = "LIST" /\ b.t \in Listable -> ListOf(Append(a.v, b))
    [] a.t \in Listable /\ b.t = "LIST" -> ListOf(<<a>> \o b.v)
    [] OTHER -> BadType)
Minus(a, b) == Both(a, b,
  CASE a.t = "INT" /\ b.t = "INT" -> IntV(BSub(a.n, b.n))
    [] Mixed(a, b) -> IF Wide(a) \/ Wide(b) THEN Free ELSE Flt(QSub(QOf(a), QOf(b)))
    [] a.t = "DATE" /\ b.t = "INT" -> DatePlus(a, BNeg(b.n))
    [] a.t = "DATE" /\ b.t = "DATE" -> IF a.y \in 1901..2099 /\ b.y \in 1901..2099 THEN Int32(DateDay(a) - DateDay(b)) ELSE Free
    [] OTHER -> BadType)
Times(a, b) == Both(a, b,
  CASE a.t = "INT" /\ b.t = "INT" -> IntV(BMul(a.n, b.n))
    [] Mixed(a, b) -> IF Wide(a) \/ Wide(b) THEN Free ELSE Flt(QMul(QOf(a), QOf(b)))
    [] OTHER -> BadType)
AbsI(n) == IF n < 0 THEN -n ELSE n
SgnI(n) == IF n < 0 THEN -1 ELSE 1
QuotI(x, y) == SgnI(x) * SgnI(y) * (AbsI(x) \div AbsI(y))
IsPow2(b) == \E j \in 0..20 : b = Pow2(j)
LogOf(b) == CHOOSE j \in 0..20 : b = Pow2(j)
Over(a, b) == Both(a, b,
  CASE IsNum(a) /\ IsNum(b) /\ Zero(b) -> DivByZero
    [] a.t = "INT" /\ b.t = "INT" /\ ~Zero(b) -> IF Fits32(a.n) /\ Fits32(b.n) THEN Int32(QuotI(Small(a.n), Small(b.n))) ELSE Free
    [] Mixed(a, b) /\ ~Zero(b) ->
         IF Wide(a) \/ Wide(b) THEN Free
         ELSE LET q == QOf(b) m == BAbs(q.n) IN
              IF IsPow2(m) THEN Flt(Q(BMul(IF q.n.s < 0 THEN BNeg(QOf(a).n) ELSE QOf(a).n, Pow2(q.k)), QOf(a).k + LogOf(m))) ELSE Free
    [] OTHER -> BadType)
Modulo(a, b) == Both(a, b,
  CASE IsNum(a) /\ IsNum(b) /\ Zero(b) -> DivByZero
    [] a.t = "INT" /\ b.t = "INT" /\ ~Zero(b) -> IF Fits32(a.n) /\ Fits32(b.n) THEN Int32(SgnI(Small(a.n)) * (AbsI(Small(a.n)) % AbsI(Small(b.n)))) ELSE Free
    [] Mixed(a, b) /\ ~Zero(b) -> Free
    [] OTHER -> BadType)
Negate(a) == CASE IsOpen(a) \/ IsNull(a) \/ IsEmpty(a) -> a [] a.t = "INT" -> IntV(BNeg(a.n))
               [] a.t = "FLOAT" -> IF a.sp # "" THEN Free ELSE [a EXCEPT !.n = BNeg(@)] [] OTHER -> BadType
Not(a) == CASE IsOpen(a) \/ IsNull(a) \/ IsEmpty(a) -> a [] a.t = "BOOL" -> Bool(~a.b) [] OTHER -> BadType
OrV(a, b) == Both(a, b, IF a.t = "BOOL" /\ b.t = "BOOL" THEN Bool(a.b \/ b.b) ELSE BadType)
AndV(a, b) == Both(a, b, IF a.t = "BOOL" /\ b.t = "BOOL" THEN Bool(a.b /\ b.b) ELSE BadType)
\* ------ comparisons
Compare(k, a, b) == IF IsOpen(a) \/ IsOpen(b) THEN Free ELSE
  CASE k = "RelEQ" -> Equal3(a, b) [] k = "RelNE" -> Not(Equal3(a, b)) [] k = "RelLT" -> Less(a, b)
    [] k = "RelLE" -> OrV(Less(a, b), Equal3(a, b))
    [] k = "RelGT" -> AndV(Not(Less(a, b)), Not(Equal3(a, b)))
    [] k = "RelGE" -> OrV(Not(Less(a, b)), Equal3(a, b))
BadNull(v) == IsNull(v) /\ v.k # "NULL"
PlainNull(v) == IsNull(v) /\ v.k = "NULL"
Inside(c, p) == \E i \in 0..Len(c) - Len(p) : SubSeq(c, i + 1, i + Len(p)) = p
\* texts: f is what two texts give
OfTexts(a, b, f) == IF BadNull(a) \/ BadNull(b) THEN BadType
                    ELSE IF a.t \notin {"NULL", "STRING"} \/ b.t \notin {"NULL", "STRING"} THEN BadType
                    ELSE IF IsNull(a) \/ IsNull(b) THEN Null("NULL") ELSE Bool(f)
TextRel(k, a, b) == IF IsOpen(a) \/ IsOpen(b) THEN Free ELSE OfTexts(a, b,
  CASE k = "Contains" -> Inside(a.c, b.c) [] k = "NotContains" -> ~Inside(a.c, b.c)
    [] k = "StartsWith" -> Starts(a.c, b.c) [] k = "NotStartsWith" -> ~Starts(a.c, b.c)
    [] k = "EndsWith" -> Ends(a.c, b.c) [] k = "NotEndsWith" -> ~Ends(a.c, b.c))
\* in: unknown if it is not there but a null is, or if nothing is known about the left side
Holds(a, b) == IF b.t = "MAP" THEN a.t = "STRING" /\ HasKey(b.v, a.c) ELSE \E i \in 1..Len(b.v) : Eq(b.v[i], a)
HoldsNull(b) == b.t # "MAP" /\ \E i \in 1..Len(b.v) : IsNull(b.v[i])
In(a, b) == IF IsOpen(a) \/ IsOpen(b) THEN Free
            ELSE IF PlainNull(b) THEN Null("NULL")
            ELSE IF b.t \notin {"LIST", "SET", "MAP"} THEN BadType
            ELSE IF IsNull(a) THEN Null("NULL")
            ELSE IF Holds(a, b) THEN Bool(TRUE) ELSE IF HoldsNull(b) THEN Null("NULL") ELSE Bool(FALSE)
\* ------ parts of values
Low(c) == Lower(c)
DateAttr(v, c) == CASE c = <<121, 101, 97, 114>> -> Int32(v.y) [] c = <<109, 111, 110, 116, 104>> -> Int32(v.mo) [] c = <<100, 97, 121>> -> Int32(v.d)
                    [] OTHER -> Null("UNKNOWN_PROP")
TimeAttr(v, c) == CASE c = <<104, 111, 117, 114>> -> Int32(v.h) [] c = <<109, 105, 110, 117, 116, 101>> -> Int32(v.mi) [] c = <<115, 101, 99, 111, 110, 100>> -> Int32(v.s)
                    [] c = <<109, 105, 99, 114, 111, 115, 101, 99, 111, 110, 100>> -> Int32(v.us) [] OTHER -> Null("UNKNOWN_PROP")
DateTimeAttr(v, c) == IF DateAttr(v, c).t = "INT" THEN DateAttr(v, c) ELSE TimeAttr(v, c)
Vid == <<95, 118, 105, 100>>
Src == <<95, 115, 114, 99>>
Dst == <<95, 100, 115, 116>>
RankC == <<95, 114, 97, 110, 107>>
TypeC == <<95, 116, 121, 112, 101>>
VertexPart(v, c, none) == IF c = Vid THEN v.vid ELSE IF VHas(v, c) THEN Lookup(v.tags[FirstTag(v, c)].props, c, none) ELSE none
EdgePart(v, c, none) == IF c # <<>> /\ c[1] = 95
  THEN CASE c = Src -> v.src [] c = Dst -> v.dst [] c = RankC -> Int32(v.rank) [] c = TypeC -> Str(v.name) [] OTHER -> none
  ELSE Lookup(v.props, c, none)
Attribute(a, b) == IF IsOpen(a) \/ IsOpen(b) \/ b.t # "STRING" THEN Free ELSE
  CASE a.t = "MAP" -> Lookup(a.v, b.c, Null("UNKNOWN_PROP"))
    [] a.t = "VERTEX" -> VertexPart(a, b.c, Null("UNKNOWN_PROP"))
    [] a.t = "EDGE" -> EdgePart(a, b.c, Null("UNKNOWN_PROP"))
    [] a.t = "DATE" -> DateAttr(a, Low(b.c)) [] a.t = "TIME" -> TimeAttr(a, Low(b.c)) [] a.t = "DATETIME" -> DateTimeAttr(a, Low(b.c))
    [] OTHER -> BadType
\* positions count from 0, or from the end, from -1
Pick(s, n) == LET i == IF Fits32(n) THEN Small(n) ELSE 999999999 IN
              IF i >= Len(s) \/ i < -Len(s) THEN Null("OUT_OF_RANGE") ELSE s[(IF i < 0 THEN i + Len(s) ELSE i) + 1]
Subscript(a, b) == IF IsOpen(a) \/ IsOpen(b) THEN Free ELSE
  CASE a.t = "LIST" -> IF b.t # "INT" THEN BadType ELSE Pick(a.v, b.n)
    [] a.t = "DATASET" -> IF b.t # "INT" THEN BadType ELSE IF b.n.s < 0 THEN Null("OUT_OF_RANGE")
                          ELSE Pick([i \in 1..Len(a.rows) |-> ListOf(a.rows[i])], b.n)
    [] a.t = "MAP" -> IF b.t # "STRING" THEN Null("NULL") ELSE Lookup(a.v, b.c, Null("UNKNOWN_PROP"))
    [] a.t = "VERTEX" -> IF b.t # "STRING" THEN Null("NULL") ELSE VertexPart(a, b.c, Null("NULL"))
    [] a.t = "EDGE" -> IF b.t # "STRING" THEN Null("NULL") ELSE EdgePart(a, b.c, Null("NULL"))
    [] OTHER -> BadType
\* [lo, hi) of s; beyond the ends there is nothing
Clamp(n, size) == LET i == IF Fits32(n) THEN Small(n) ELSE n.s * 999999999 IN IF i < 0 THEN i + size ELSE i
Slice(s, lo, hi) == LET l == IF lo < 0 THEN 0 ELSE lo h == IF hi > Len(s) THEN Len(s) ELSE hi IN IF l >= h THEN <<>> ELSE SubSeq(s, l + 1, h)
\* ------ as another type
RECURSIVE Vague(_)
VagueProps(p) == Len(p) > 1 \/ \E i \in 1..Len(p) : Vague(p[i].v)
VagueVertex(v) == Vague(v.vid) \/ \E i \in 1..Len(v.tags) : VagueProps(v.tags[i].props)
\* has no one text: floats, and entries in any order
Vague(v) == CASE v.t \in {"FLOAT", "OPEN"} -> TRUE
              [] v.t = "LIST" -> \E i \in 1..Len(v.v) : Vague(v.v[i])
              [] v.t = "SET" -> Len(v.v) > 1 \/ \E i \in 1..Len(v.v) : Vague(v.v[i])
              [] v.t = "MAP" -> VagueProps(v.v)
              [] v.t = "VERTEX" -> VagueVertex(v)
              [] v.t = "EDGE" -> Vague(v.src) \/ Vague(v.dst) \/ VagueProps(v.props)
              [] v.t = "PATH" -> VagueVertex(v.src) \/ \E i \in 1..Len(v.steps) : VagueVertex(v.steps[i].dst) \/ VagueProps(v.steps[i].props)
              [] v.t = "DATASET" -> \E i \in 1..Len(v.rows) : \E j \in 1..Len(v.rows[i]) : Vague(v.rows[i][j])
              [] OTHER -> FALSE
Printed(v) == CHOOSE x \in Out(v) : TRUE
AsText(v) == IF Vague(v) THEN Free ELSE IF v.t = "STRING" THEN v ELSE Str(Printed(v))
AsBool(v) == CASE IsOpen(v) -> v [] IsNull(v) \/ IsEmpty(v) -> Null("NULL") [] v.t = "BOOL" -> v
               [] v.t = "STRING" -> IF Low(v.c) = TrueText THEN Bool(TRUE) ELSE IF Low(v.c) = FalseText THEN Bool(FALSE) ELSE Null("NULL")
               [] OTHER -> BadType
AsFloat(v) == CASE IsOpen(v) -> v [] IsNull(v) \/ IsEmpty(v) -> Null("NULL") [] v.t = "FLOAT" -> v
                [] v.t = "INT" -> IF Wide(v) THEN Free ELSE Flt(QOf(v))
                [] v.t = "STRING" -> LET x == ReadNum(v.c) IN IF ~x.ok THEN Null("NULL") ELSE IF x.int /\ Len(x.n.d) <= 5 THEN Flt(QI(x.n)) ELSE Free
                [] OTHER -> BadType
RECURSIVE CutQ(_, _)
CutQ(d, k) == IF k = 0 THEN d ELSE CutQ(Half(d), k - 1)
AsInt(v) == CASE IsOpen(v) -> v [] IsNull(v) \/ IsEmpty(v) -> Null("NULL") [] v.t = "INT" -> v
              [] v.t = "FLOAT" -> IF Wide(v) THEN Free ELSE IntOf(Mk(v.n.s, CutQ(v.n.d, v.k)))
              [] v.t = "STRING" -> LET x == ReadNum(v.c) IN IF ~x.ok THEN Null("NULL") ELSE IF x.int THEN IntV(x.n) ELSE Free
              [] OTHER -> BadType
\* equal, but for the order of a set's elements
RECURSIVE SameV(_, _)
SameProps(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : p[i].k = q[i].k /\ SameV(p[i].v, q[i].v)
SameVertex(a, b) == SameV(a.vid, b.vid) /\ Len(a.tags) = Len(b.tags) /\ \A i \in 1..Len(a.tags) : a.tags[i].name = b.tags[i].name /\ SameProps(a.tags[i].props, b.tags[i].props)
SameV(a, b) == a.t = b.t /\
  CASE a.t = "LIST" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : SameV(a.v[i], b.v[i])
    [] a.t = "SET" -> Len(a.v) = Len(b.v) /\ (\A i \in 1..Len(a.v) : \E j \in 1..Len(b.v) : SameV(a.v[i], b.v[j]))
                      /\ (\A i \in 1..Len(b.v) : \E j \in 1..Len(a.v) : SameV(b.v[i], a.v[j]))
    [] a.t = "MAP" -> SameProps(a.v, b.v)
    [] a.t = "VERTEX" -> SameVertex(a, b)
    [] OTHER -> a = b
=============================================================================
