--------------------------------- MODULE Fun ---------------------------------
(* The functions of the query language.  Call gives the result where there is just one;
   where it is rounded, random or told by the clock it is Free, and CallOK says which
   results are right. *)
EXTENDS Ops, Real, Names
NullV == Null("NULL")
\* one argument: null stays null, and of another type there is none
One(a, types, r) == IF IsNull(a) THEN NullV ELSE IF a.t \notin types THEN BadType ELSE r
AllOf(s, t) == \A i \in 1..Len(s) : s[i].t = t
AnyNull(s) == \E i \in 1..Len(s) : IsNull(s[i])
\* ------ numbers
Bits(op, a, b) == IF Missing(a, b) THEN MissingResult(a, b) ELSE IF a.t # "INT" \/ b.t # "INT" THEN BadType ELSE Free
Floor(q) == IF q.n.s >= 0 THEN Mk(1, CutQ(q.n.d, q.k))
            ELSE LET c == Mk(-1, CutQ(q.n.d, q.k)) IN IF QEq(QI(c), q) THEN c ELSE BSub(c, Bg(1))
Ceil(q) == BNeg(Floor(QNeg(q)))
Round(q) == LET h == Floor(QAdd(QAbs(q), Q(Bg(1), 1))) IN IF q.n.s < 0 THEN BNeg(h) ELSE h
Whole(a, n) == IF a.t = "FLOAT" /\ a.sp # "" THEN Free ELSE IF a.t = "INT" /\ Wide(a) THEN Free ELSE Flt(QI(n))
RECURSIVE PowB(_, _)
PowB(b, e) == IF e = 0 THEN Bg(1) ELSE BMul(b, PowB(b, e - 1))
\* ------ texts
Upper(c) == [i \in 1..Len(c) |-> IF c[i] \in 97..122 THEN c[i] - 32 ELSE c[i]]
Blank(n) == n \in {9, 10, 13, 32}
RECURSIVE LTrim(_)
LTrim(c) == IF c # <<>> /\ Blank(c[1]) THEN LTrim(SubSeq(c, 2, Len(c))) ELSE c
RECURSIVE RTrim(_)
RTrim(c) == IF c # <<>> /\ Blank(c[Len(c)]) THEN RTrim(SubSeq(c, 1, Len(c) - 1)) ELSE c
Back(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* the number n, at most m
AtMost(n, m) == IF ~Fits32(n) \/ Small(n) > m THEN m ELSE Small(n)
RECURSIVE Replaced(_, _, _)
Replaced(c, p, w) == IF Len(c) < Len(p) THEN c
                     ELSE IF Starts(c, p) THEN w \o Replaced(SubSeq(c, Len(p) + 1, Len(c)), p, w)
                     ELSE <<c[1]>> \o Replaced(SubSeq(c, 2, Len(c)), p, w)
RECURSIVE Pieces(_, _, _)
Pieces(c, p, cur) == IF Len(c) < Len(p) THEN <<Str(cur \o c)>>
                     ELSE IF Starts(c, p) THEN <<Str(cur)>> \o Pieces(SubSeq(c, Len(p) + 1, Len(c)), p, <<>>)
                     ELSE Pieces(SubSeq(c, 2, Len(c)), p, Append(cur, c[1]))
Fill(p, n) == [i \in 1..n |-> p[((i - 1) % Len(p)) + 1]]
Padded(c, n, p, left) == IF n.s < 0 THEN <<>>
                         ELSE IF Fits32(n) /\ Small(n) < Len(c) THEN SubSeq(c, 1, Small(n))
                         ELSE IF p = <<>> THEN c
                         ELSE LET f == Fill(p, Small(n) - Len(c)) IN IF left THEN f \o c ELSE c \o f
SubText(a) == IF IsNull(a[1]) THEN NullV
              ELSE IF a[1].t # "STRING" \/ a[2].t # "INT" \/ (Len(a) = 3 /\ a[3].t # "INT") THEN BadType
              ELSE IF a[2].n.s < 0 \/ (Len(a) = 3 /\ a[3].n.s < 0) THEN Null("BAD_DATA")
              ELSE LET c == a[1].c s == AtMost(a[2].n, Len(c)) n == IF Len(a) = 3 THEN AtMost(a[3].n, Len(c) - s) ELSE Len(c) - s IN Str(SubSeq(c, s + 1, s + n))
Part(a, f) == IF IsNull(a[1]) THEN NullV ELSE IF a[1].t # "STRING" \/ a[2].t # "INT" THEN BadType
              ELSE IF a[2].n.s < 0 THEN BadType ELSE f
RECURSIVE Cmp3(_, _)
Cmp3(a, b) == IF a = <<>> /\ b = <<>> THEN 0 ELSE IF a = <<>> THEN -1 ELSE IF b = <<>> THEN 1
              ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE Cmp3(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
\* ------ lists
RECURSIVE UpTo(_, _, _)
UpTo(lo, hi, st) == IF (IF st.s > 0 THEN BLt(hi, lo) ELSE BLt(lo, hi)) THEN <<>> ELSE <<IntOf(lo)>> \o UpTo(BAdd(lo, st), hi, st)
RangeOf(a) == LET st == IF Len(a) = 3 THEN a[3] ELSE Int32(1) IN
            IF a[1].t # "INT" \/ a[2].t # "INT" \/ st.t # "INT" THEN BadType
            ELSE IF st.n.s = 0 THEN Null("BAD_DATA") ELSE ListOf(UpTo(a[1].n, a[2].n, st.n))
FirstNotNull(s) == IF \E i \in 1..Len(s) : ~Eq(s[i], NullV) THEN s[CHOOSE i \in 1..Len(s) : ~Eq(s[i], NullV) /\ \A j \in 1..i - 1 : Eq(s[j], NullV)] ELSE NullV
\* ------ graphs
Bare(id) == [t |-> "VERTEX", vid |-> id, tags |-> <<>>]
Kv(p) == [i \in 1..Len(p) |-> p[i]]
\* sorted by key, the first of equal keys
RECURSIVE PutKv(_, _)
RECURSIVE LtC(_, _)
LtC(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LtC(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
PutKv(s, p) == IF s = <<>> THEN <<p>> ELSE IF p.k = s[1].k THEN s ELSE IF LtC(p.k, s[1].k) THEN <<p>> \o s ELSE <<s[1]>> \o PutKv(SubSeq(s, 2, Len(s)), p)
RECURSIVE SortKv(_, _)
SortKv(ps, acc) == IF ps = <<>> THEN acc ELSE SortKv(SubSeq(ps, 2, Len(ps)), PutKv(acc, ps[1]))
TagProps(v) == Cat([i \in 1..Len(v.tags) |-> v.tags[i].props])
PropsOf(a) == SortKv(CASE a.t = "VERTEX" -> TagProps(a) [] a.t = "EDGE" -> a.props [] a.t = "MAP" -> a.v, <<>>)
MapV(ps) == [t |-> "MAP", v |-> ps]
KeysOf(a) == LET p == PropsOf(a) IN ListOf([i \in 1..Len(p) |-> Str(p[i].k)])
EdgesOf(p) == ListOf([i \in 1..Len(p.steps) |-> LET s == p.steps[i] IN
                [t |-> "EDGE", src |-> Nodes(p)[i].vid, dst |-> Nodes(p)[i + 1].vid, ty |-> s.ty, name |-> s.name, rank |-> s.rank, props |-> s.props]])
Cell(a) == IF a[1].t # "DATASET" \/ a[2].t # "INT" \/ a[3].t \notin {"INT", "STRING"} THEN BadType
           ELSE LET d == a[1] none == 1000000
                    r == IF Fits32(a[2].n) THEN Small(a[2].n) ELSE none
                    c == IF a[3].t = "INT" THEN (IF Fits32(a[3].n) THEN Small(a[3].n) ELSE none)
                         ELSE IF \E i \in 1..Len(d.cols) : d.cols[i] = a[3].c THEN ColIx(d, a[3].c) - 1 ELSE none
                IN IF r \in 0..Len(d.rows) - 1 /\ c \in 0..Len(d.cols) - 1 THEN d.rows[r + 1][c + 1] ELSE Null("BAD_DATA")
\* ------ dates and times: fields m of a map, each in its range; tz: seconds that local time is ahead
Fields == [year |-> <<121, 101, 97, 114>>, month |-> <<109, 111, 110, 116, 104>>, day |-> <<100, 97, 121>>, hour |-> <<104, 111, 117, 114>>,
           minute |-> <<109, 105, 110, 117, 116, 101>>, second |-> <<115, 101, 99, 111, 110, 100>>, microsecond |-> <<109, 105, 99, 114, 111, 115, 101, 99, 111, 110, 100>>]
Lo == [year |-> -32768, month |-> 1, day |-> 1, hour |-> 0, minute |-> 0, second |-> 0, microsecond |-> 0]
Hi == [year |-> 32767, month |-> 12, day |-> 31, hour |-> 23, minute |-> 59, second |-> 59, microsecond |-> 999999]
DateF == {"year", "month", "day"}
TimeF == {"hour", "minute", "second", "microsecond"}
GoodMap(m, fs) == \A i \in 1..Len(m) : \E f \in fs : m[i].k = Fields[f] /\ m[i].v.t = "INT" /\ Fits32(m[i].v.n) /\ Small(m[i].v.n) \in Lo[f]..Hi[f]
Get(m, f) == IF HasKey(m, Fields[f]) THEN Small(Lookup(m, Fields[f], Empty).n) ELSE IF f \in {"month", "day"} THEN 1 ELSE 0
DateV(y, m, d) == [t |-> "DATE", y |-> y, mo |-> m, d |-> d]
TimeV(h, m, s, us) == [t |-> "TIME", h |-> h, mi |-> m, s |-> s, us |-> us]
DateTimeV(d, tm) == [t |-> "DATETIME", y |-> d.y, mo |-> d.mo, d |-> d.d, h |-> tm.h, mi |-> tm.mi, s |-> tm.s, us |-> tm.us]
TimeAt(s, us) == TimeV(s \div 3600, (s \div 60) % 60, s % 60, us)
\* by so many seconds
MovedTime(x, off) == TimeAt((SecOf(x.h, x.mi, x.s) + off) % 86400, x.us)
MovedDT(x, off) == LET s == SecOf(x.h, x.mi, x.s) + off IN DateTimeV(DateOf(DayNum(x.y, x.mo, x.d) + (s \div 86400)), TimeAt(s % 86400, x.us))
\* texts: yyyy-mm-dd, hh:mm:ss, and both with a T or a blank between; others may be refused
Dig(c, s) == \A i \in 1..Len(s) : s[i] <= Len(c) /\ c[s[i]] \in 48..57
Num2(c, i) == (c[i] - 48) * 10 + c[i + 1] - 48
IsDateText(c) == Len(c) = 10 /\ Dig(c, <<1, 2, 3, 4, 6, 7, 9, 10>>) /\ c[5] = 45 /\ c[8] = 45
IsTimeText(c) == Len(c) = 8 /\ Dig(c, <<1, 2, 4, 5, 7, 8>>) /\ c[3] = 58 /\ c[6] = 58
IsDateTimeText(c) == Len(c) = 19 /\ c[11] \in {84, 32} /\ IsDateText(SubSeq(c, 1, 10)) /\ IsTimeText(SubSeq(c, 12, 19))
DateFrom(c) == DateV(Num2(c, 1) * 100 + Num2(c, 3), Num2(c, 6), Num2(c, 9))
TimeFrom(c) == TimeV(Num2(c, 1), Num2(c, 4), Num2(c, 7), 0)
GoodDate(d) == Valid(d.y, d.mo, d.d)
GoodTime(x) == ValidTime(x.h, x.mi, x.s)
\* a text with no digit at its beginning (behind blanks) is no date nor time
NoTime(c) == LET l == LTrim(c) IN l = <<>> \/ (l[1] \notin 48..57 /\ l[1] \notin {11, 12, 43, 45})
MapDate(m) == LET d == DateV(Get(m, "year"), Get(m, "month"), Get(m, "day")) IN d
DateCall(x) == CASE x.t = "STRING" -> (IF IsDateText(x.c) THEN (IF GoodDate(DateFrom(x.c)) THEN DateFrom(x.c) ELSE Null("BAD_DATA")) ELSE IF NoTime(x.c) THEN Null("BAD_DATA") ELSE Free)
                 [] x.t = "MAP" -> (IF GoodMap(x.v, DateF) /\ GoodDate(MapDate(x.v)) THEN MapDate(x.v) ELSE Null("BAD_DATA"))
                 [] OTHER -> BadType
MapTime(m) == TimeV(Get(m, "hour"), Get(m, "minute"), Get(m, "second"), Get(m, "microsecond"))
\* the 60th second is left open
TimeCall(x, tz) == CASE x.t = "STRING" -> (IF IsTimeText(x.c) THEN (IF GoodTime(TimeFrom(x.c)) THEN MovedTime(TimeFrom(x.c), -tz) ELSE IF TimeFrom(x.c).s > 59 /\ TimeFrom(x.c).s < 62 THEN Free ELSE Null("BAD_DATA"))
                                           ELSE IF NoTime(x.c) THEN Null("BAD_DATA") ELSE Free)
                     [] x.t = "MAP" -> (IF GoodMap(x.v, TimeF) THEN MovedTime(MapTime(x.v), -tz) ELSE Null("BAD_DATA"))
                     [] OTHER -> BadType
FromText(c) == DateTimeV(DateFrom(SubSeq(c, 1, 10)), TimeFrom(SubSeq(c, 12, 19)))
DateTimeCall(x, tz) ==
  CASE x.t = "STRING" -> (IF IsDateTimeText(x.c) THEN LET d == FromText(x.c) IN (IF GoodDate(d) /\ GoodTime(d) THEN MovedDT(d, -tz) ELSE IF d.s > 59 /\ d.s < 62 THEN Free ELSE Null("BAD_DATA"))
                          ELSE IF NoTime(x.c) THEN Null("BAD_DATA") ELSE Free)
    [] x.t = "MAP" -> (IF GoodMap(x.v, DateF \cup TimeF) /\ GoodDate(MapDate(x.v)) THEN MovedDT(DateTimeV(MapDate(x.v), MapTime(x.v)), -tz) ELSE Null("BAD_DATA"))
    [] OTHER -> Null("BAD_DATA")
\* seconds since 1970, up to 2^63/10^9
MaxStamp == [s |-> 1, d |-> <<36, 372, 223, 9>>]
Stamp(n) == IF n.s < 0 \/ BLt(MaxStamp, n) THEN Null("BAD_DATA") ELSE IntOf(n)
StampCall(x) == CASE x.t = "INT" -> Stamp(x.n)
                  [] x.t = "STRING" -> (IF IsDateTimeText(x.c) THEN LET d == FromText(x.c) IN
                                           (IF GoodDate(d) /\ GoodTime(d) THEN Stamp(BAdd(BMul(Bg(DayNum(d.y, d.mo, d.d)), Bg(86400)), Bg(SecOf(d.h, d.mi, d.s))))
                                            ELSE IF d.s > 59 /\ d.s < 62 THEN Free ELSE Null("BAD_DATA"))
                                        ELSE IF NoTime(x.c) THEN Null("BAD_DATA") ELSE Free)
                  [] OTHER -> Null("BAD_DATA")
\* ------ the function f of the arguments a
Math == {"sqrt", "cbrt", "exp", "exp2", "log", "log2", "log10", "radians", "sin", "asin", "cos", "acos", "tan", "atan"}
Num == {"INT", "FLOAT"}
CallAt(f, a, tz) ==
  CASE f = "abs" -> One(a[1], Num, IF a[1].t = "INT" THEN IntV(BAbs(a[1].n)) ELSE IF a[1].sp # "" THEN Free ELSE [a[1] EXCEPT !.n = BAbs(@)])
    [] f \in {"bit_and", "bit_or", "bit_xor"} -> Bits(f, a[1], a[2])
    [] f = "floor" -> One(a[1], Num, Whole(a[1], Floor(QOf(a[1])))) [] f = "ceil" -> One(a[1], Num, Whole(a[1], Ceil(QOf(a[1])))) [] f = "round" -> One(a[1], Num, Whole(a[1], Round(QOf(a[1]))))
    [] f \in {"sqrt"} -> One(a[1], Num, IF QOf(a[1]).n.s < 0 THEN NullV ELSE Free)
    [] f \in {"log", "log2", "log10"} -> One(a[1], Num, IF Zero(a[1]) THEN NullV ELSE Free)
    [] f \in Math \ {"sqrt", "log", "log2", "log10"} -> One(a[1], Num, Free)
    [] f = "hypot" -> IF IsNum(a[1]) /\ IsNum(a[2]) THEN Free ELSE BadType
    [] f = "pow" -> IF IsNum(a[1]) /\ IsNum(a[2]) THEN (IF a[1].t = "INT" /\ a[2].t = "INT" /\ a[2].n.s >= 0 /\ Fits32(a[2].n) /\ Small(a[2].n) < 60 /\ Fits32(a[1].n) /\ Len(PowB(a[1].n, Small(a[2].n)).d) <= 5
                                                       THEN IntOf(PowB(a[1].n, Small(a[2].n))) ELSE Free) ELSE BadType
    [] f \in {"e", "pi", "rand", "now"} -> Free
    [] f \in {"rand32", "rand64"} -> (IF a = <<>> THEN Free ELSE IF ~AllOf(a, "INT") THEN BadType
         ELSE LET top(n) == IF f = "rand32" THEN BLt(n, [s |-> 1, d |-> <<296, 967, 294, 4>>]) ELSE TRUE IN
              IF (\E i \in 1..Len(a) : a[i].n.s < 0 \/ ~top(a[i].n)) \/ (Len(a) = 2 /\ ~BLt(a[1].n, a[2].n)) THEN Null("BAD_DATA") ELSE Free)
    [] f = "sign" -> One(a[1], Num, Int32(QOf(a[1]).n.s))
    [] f = "strcasecmp" -> IF AllOf(a, "STRING") THEN (IF Cmp3(Lower(a[1].c), Lower(a[2].c)) = 0 THEN Int32(0) ELSE Free) ELSE BadType
    [] f \in {"lower", "tolower"} -> One(a[1], {"STRING"}, Str(Lower(a[1].c))) [] f \in {"upper", "toupper"} -> One(a[1], {"STRING"}, Str(Upper(a[1].c)))
    [] f = "length" -> One(a[1], {"STRING", "PATH"}, Int32(IF a[1].t = "STRING" THEN Len(a[1].c) ELSE Len(a[1].steps)))
    [] f = "trim" -> One(a[1], {"STRING"}, Str(LTrim(RTrim(a[1].c)))) [] f = "ltrim" -> One(a[1], {"STRING"}, Str(LTrim(a[1].c))) [] f = "rtrim" -> One(a[1], {"STRING"}, Str(RTrim(a[1].c)))
    [] f = "left" -> Part(a, Str(SubSeq(a[1].c, 1, AtMost(a[2].n, Len(a[1].c)))))
    [] f = "right" -> Part(a, Str(SubSeq(a[1].c, Len(a[1].c) - AtMost(a[2].n, Len(a[1].c)) + 1, Len(a[1].c))))
    [] f = "replace" -> IF AnyNull(a) THEN NullV ELSE IF AllOf(a, "STRING") THEN Str(IF a[2].c = <<>> THEN a[1].c ELSE Replaced(a[1].c, a[2].c, a[3].c)) ELSE BadType
    [] f = "reverse" -> One(a[1], {"STRING", "LIST"}, IF a[1].t = "STRING" THEN Str(Back(a[1].c)) ELSE ListOf(Back(a[1].v)))
    [] f = "split" -> One(a[1], {"STRING"}, IF IsNull(a[2]) THEN NullV ELSE IF a[2].t # "STRING" THEN BadType
                                            ELSE ListOf(IF a[2].c = <<>> THEN <<a[1]>> ELSE Pieces(a[1].c, a[2].c, <<>>)))
    [] f \in {"lpad", "rpad"} -> IF a[1].t = "STRING" /\ a[2].t = "INT" /\ a[3].t = "STRING" THEN Str(Padded(a[1].c, a[2].n, a[3].c, f = "lpad")) ELSE BadType
    [] f \in {"substr", "substring"} -> SubText(a)
    [] f = "tostring" -> One(a[1], Texts, IF a[1].t = "FLOAT" THEN Free ELSE Str(TextOf(a[1])))
    [] f = "toboolean" -> AsBool(a[1]) [] f = "tofloat" -> AsFloat(a[1]) [] f = "tointeger" -> AsInt(a[1])
    [] f = "hash" -> (CASE a[1].t = "INT" -> a[1] [] a[1].t = "BOOL" -> Int32(IF a[1].b THEN 1 ELSE 0) [] a[1].t \in {"TIME", "MAP", "SET", "DATASET"} -> BadType [] OTHER -> Free)
    [] f = "size" -> (CASE IsNull(a[1]) -> NullV [] IsEmpty(a[1]) -> Empty [] a[1].t = "STRING" -> Int32(Len(a[1].c)) [] a[1].t \in {"LIST", "MAP", "SET"} -> Int32(Len(a[1].v))
                        [] a[1].t = "DATASET" -> Int32(Len(a[1].rows)) [] OTHER -> BadType)
    [] f = "date" -> IF a = <<>> THEN Free ELSE DateCall(a[1]) [] f = "time" -> IF a = <<>> THEN Free ELSE TimeCall(a[1], tz)
    [] f = "datetime" -> IF a = <<>> THEN Free ELSE DateTimeCall(a[1], tz) [] f = "timestamp" -> IF a = <<>> THEN Free ELSE StampCall(a[1])
    [] f = "id" -> One(a[1], {"VERTEX"}, a[1].vid)
    [] f \in {"tags", "labels"} -> One(a[1], {"VERTEX"}, ListOf([i \in 1..Len(a[1].tags) |-> Str(a[1].tags[i].name)]))
    [] f = "properties" -> One(a[1], {"VERTEX", "EDGE", "MAP"}, MapV(PropsOf(a[1]))) [] f = "keys" -> One(a[1], {"VERTEX", "EDGE", "MAP"}, KeysOf(a[1]))
    [] f = "type" -> One(a[1], {"EDGE"}, Str(a[1].name)) [] f = "typeid" -> One(a[1], {"EDGE"}, Int32(a[1].ty)) [] f = "rank" -> One(a[1], {"EDGE"}, Int32(a[1].rank))
    [] f = "src" -> One(a[1], {"EDGE"}, IF a[1].ty > 0 THEN a[1].src ELSE a[1].dst) [] f = "dst" -> One(a[1], {"EDGE"}, IF a[1].ty > 0 THEN a[1].dst ELSE a[1].src)
    [] f = "startnode" -> One(a[1], {"EDGE", "PATH"}, IF a[1].t = "EDGE" THEN Bare(a[1].src) ELSE a[1].src)
    [] f = "endnode" -> One(a[1], {"EDGE", "PATH"}, IF a[1].t = "EDGE" THEN Bare(a[1].dst) ELSE Last(a[1]))
    [] f = "head" -> One(a[1], {"LIST"}, IF a[1].v = <<>> THEN NullV ELSE a[1].v[1]) [] f = "last" -> One(a[1], {"LIST"}, IF a[1].v = <<>> THEN NullV ELSE a[1].v[Len(a[1].v)])
    [] f = "tail" -> One(a[1], {"LIST"}, ListOf(IF a[1].v = <<>> THEN <<>> ELSE SubSeq(a[1].v, 2, Len(a[1].v))))
    [] f = "coalesce" -> One(a[1], {"LIST"}, FirstNotNull(a[1].v))
    [] f = "nodes" -> One(a[1], {"PATH"}, ListOf(Nodes(a[1]))) [] f = "relationships" -> One(a[1], {"PATH"}, EdgesOf(a[1]))
    [] f = "hassameedgeinpath" -> IF a[1].t # "PATH" THEN BadType ELSE Bool(DupEdges(a[1]))
    [] f = "hassamevertexinpath" -> IF a[1].t # "PATH" THEN BadType ELSE Bool(DupVertices(a[1]))
    [] f = "reversepath" -> IF a[1].t # "PATH" THEN BadType ELSE PathReverse(a[1])
    [] f = "range" -> RangeOf(a) [] f = "datasetrowcol" -> Cell(a)
    [] f = "udf_is_in" -> Bool(\E i \in 2..Len(a) : Eq(a[i], a[1])) [] f = "near" -> Str(<<>>)
    [] f = "cos_similarity" -> (IF Len(a) % 2 = 0 /\ \E i \in 1..Len(a) : ~IsNum(a[i]) THEN BadType ELSE Free)
\* from an expression: by its name
Call(w, a) == LET l == Lower(w) IN IF ~Known(l) THEN Free ELSE IF ~Takes(Named(l), Len(a)) THEN Free ELSE CallAt(Named(l).n, a, 0)
\* ------ results that are rounded
RV(v) == RealOf(QOf(v))
HalfPi == RDiv(RPi, 2)
InR(r, lo, hi) == LET eps == Down(Up(Pow10(12))) IN BLe(RSub(lo, eps), r) /\ BLe(r, RAdd(hi, eps))
One1 == RInt(1)
\* within reach of the series, and of the fixed point
Reach(x) == BLe(BAbs(x), RInt(25))
\* e^y is x > 0, by y = j ln 2 + a small rest
IsLog(y, x) == LET w == Down(RMul(y, RLog2E)) j == IF w.s = 0 THEN 0 ELSE w.s * w.d[1] + (IF Len(w.d) > 1 THEN w.s * 1000 * w.d[2] ELSE 0)
                   m == IF j >= 0 THEN Q(x.n, x.k + j) ELSE Q(BMul(x.n, PowB(Bg(2), -j)), x.k) IN
               Len(w.d) <= 2 /\ Close(Exp(RSub(y, RMul(RInt(j), RLn2))), RealOf(m), One1)
\* r is e^x, as far as floats reach
ExpIs(x, r) == IF BLt(x, RInt(-700)) THEN r.n.s >= 0 /\ BLe(RealOf(r), RInt(1)) ELSE BLe(x, RInt(710)) /\ r.n.s > 0 /\ IsLog(x, r)
\* what is beyond the greatest float
Huge(f, x, r) == f \in {"exp", "exp2"} /\ BLt(RInt(700), RV(x)) /\ r.t = "FLOAT" /\ r.sp = "inf"
MathOK(f, x, r) ==
  LET y == RV(r) IN
  CASE f = "sqrt" -> r.n.s >= 0 /\ Near(QMul(QOf(r), QOf(r)), QOf(x), QOf(x))
    [] f = "cbrt" -> Near(QMul(QMul(QOf(r), QOf(r)), QOf(r)), QOf(x), QMul(QOf(x), QI(Bg(4))))
    [] f = "exp" -> ExpIs(RV(x), QOf(r)) [] f = "exp2" -> ExpIs(RMul(RV(x), RLn2), QOf(r))
    [] f = "log" -> IsLog(y, QOf(x)) [] f = "log2" -> IsLog(RMul(y, RLn2), QOf(x)) [] f = "log10" -> IsLog(RMul(y, RLn10), QOf(x))
    [] f = "radians" -> Close(y, RDiv(RMul(RV(x), RPi), 180), y)
    [] f = "sin" -> Reach(RV(x)) => Close(y, Sin(RV(x)), One1) [] f = "cos" -> Reach(RV(x)) => Close(y, Cos(RV(x)), One1)
    [] f = "tan" -> Reach(RV(x)) => Close(RMul(y, Cos(RV(x))), Sin(RV(x)), y)
    [] f = "asin" -> InR(y, BNeg(HalfPi), HalfPi) /\ Close(Sin(y), RV(x), One1) [] f = "acos" -> InR(y, BZero, RPi) /\ Close(Cos(y), RV(x), One1)
    [] f = "atan" -> InR(y, BNeg(HalfPi), HalfPi) /\ Close(Sin(y), RMul(RV(x), Cos(y)), RV(x))
\* outside of the domain there is no number
Domain(f, x) == CASE f \in {"asin", "acos"} -> QLe(QAbs(QOf(x)), QI(Bg(1))) [] f \in {"log", "log2", "log10"} -> QOf(x).n.s > 0 [] OTHER -> TRUE
FloatR(r) == r.t = "FLOAT" /\ r.sp = ""
\* x to the y: for whole y exactly; for quarters by the fourth power
PowOK(x, y, r) ==
  IF x.t = "INT" /\ y.t = "INT"
  THEN (IF y.n.s < 0 THEN (IF x.n.s = 0 THEN Same(r, Overflow) ELSE IF BAbs(x.n) = Bg(1) THEN r.t = "INT" /\ r.n = (IF x.n.s < 0 /\ y.n.d[1] % 2 = 1 THEN Bg(-1) ELSE Bg(1)) ELSE Same(r, Int32(0)))
        ELSE IF x.n.s < 0 /\ BLe(BAbs(x.n), Bg(1)) /\ Len(y.n.d) > 5 THEN r.t = "INT" /\ BAbs(r.n) = Bg(1)      \* exponents are rounded
        ELSE IF BLe(BAbs(x.n), Bg(1)) THEN r.t = "INT" /\ r.n = (IF y.n.s = 0 THEN Bg(1) ELSE IF x.n.s = 0 THEN BZero ELSE IF x.n.s > 0 \/ y.n.d[1] % 2 = 0 THEN Bg(1) ELSE Bg(-1))
        ELSE IF ~Fits32(y.n) \/ Small(y.n) > 63 THEN Same(r, Overflow)
        ELSE LET p == PowB(x.n, Small(y.n)) IN IF BLe(BAbs(p), [s |-> 1, d |-> <<0, 0, 0, 0, 0, 0, 9>>]) THEN r.t = "INT" /\ Near(QI(r.n), QI(p), QI(p))
                                               ELSE Same(r, Overflow) \/ (r.t = "INT" /\ Near(QI(r.n), QI(p), QI(p))))
  ELSE LET q == QMul(QOf(y), QI(Bg(4))) e == Floor(q) IN
       IF QOf(x).n.s > 0 /\ QEq(q, QI(e)) /\ Fits32(e) /\ Small(e) \in -40..40
          /\ Len(QOf(x).n.d) * (IF Small(e) < 0 THEN -Small(e) ELSE Small(e)) < 400     \* else too long to count
       THEN LET b == QOf(x) s == IF Small(e) < 0 THEN -Small(e) ELSE Small(e)
                bs == Q(PowB(b.n, s), b.k * s) r4 == Q(PowB(QOf(r).n, 4), QOf(r).k * 4) one == QI(Bg(1))
            IN IF r.t = "FLOAT" /\ r.sp = "inf" THEN Small(e) >= 0 /\ QLt(QI(Pow10(1232)), bs)
               ELSE FloatR(r) /\ r.n.s >= 0 /\ (IF Small(e) >= 0 THEN LET m == QMul(bs, QI(Bg(64))) IN Near(r4, bs, m) ELSE LET z == QMul(r4, bs) IN Near(z, one, QI(Bg(64))))
       ELSE r.t = "FLOAT"
RECURSIVE Dot(_, _, _)
Dot(a, b, i) == IF i > Len(a) THEN QI(BZero) ELSE QAdd(QMul(QOf(a[i]), QOf(b[i])), Dot(a, b, i + 1))
\* r = s1 / sqrt(s2 s3), so r^2 s2 s3 = s1^2
CosOK(a, r) == IF Len(a) % 2 # 0 THEN FloatR(r) /\ QEq(QOf(r), QI(Bg(-2)))
               ELSE LET h == Len(a) \div 2 u == SubSeq(a, 1, h) w == SubSeq(a, h + 1, Len(a)) s1 == Dot(u, w, 1) s2 == Dot(u, u, 1) s3 == Dot(w, w, 1) IN
                    IF Tiny(s2) \/ Tiny(s3) THEN FloatR(r) /\ QEq(QOf(r), QI(Bg(-2)))
                    ELSE FloatR(r) /\ LET x == QMul(QMul(QOf(r), QOf(r)), QMul(s2, s3)) y == QMul(s1, s1) IN Near(x, y, QMul(QMul(s2, s3), QI(Bg(64)))) /\ (s1.n.s = 0 \/ r.n.s = s1.n.s)
\* the bits of the result
BitsOK(f, a, b, r) == BitOK(IF f = "bit_and" THEN "&" ELSE IF f = "bit_or" THEN "|" ELSE "^", a, b, r)
\* the clock: lo and hi are seconds before and after
NowIn(n, lo, hi) == BLe(lo, n) /\ BLe(n, hi)
SecsOf(d, s) == BAdd(BMul(Bg(d), Bg(86400)), Bg(s))
RandOK(f, a, r) == CASE f = "rand" -> FloatR(r) /\ r.n.s >= 0 /\ QLt(QOf(r), QI(Bg(1)))
                     [] a = <<>> -> r.t = "INT" [] Len(a) = 1 -> r.t = "INT" /\ r.n.s >= 0 /\ (BLt(r.n, a[1].n) \/ (a[1].n.s = 0 /\ r.n.s = 0))
                     [] OTHER -> r.t = "INT" /\ BLe(a[1].n, r.n) /\ BLt(r.n, a[2].n)
FloatTextOK(c, v) == FloatText(c, v) /\ \E i \in 1..Len(c) : c[i] \in {46, 69, 101}
CallOK(f, a, tz, r, lo, hi) ==
  LET x == CallAt(f, a, tz) IN
  IF ~IsOpen(x) THEN SameV(r, x)
  ELSE CASE f \in Math -> (IF Domain(f, a[1]) THEN Huge(f, a[1], r) \/ (FloatR(r) /\ MathOK(f, a[1], r)) ELSE r.t \in {"FLOAT", "NULL"})
         [] f \in {"floor", "ceil", "round"} -> FloatR(r) /\ ((a[1].t = "FLOAT" /\ a[1].sp # "") \/ Near(QOf(r), QOf(a[1]), QOf(a[1])))
         [] f = "abs" -> r.t = "FLOAT"
         [] f = "hypot" -> FloatR(r) /\ r.n.s >= 0 /\ LET s == QAdd(QMul(QOf(a[1]), QOf(a[1])), QMul(QOf(a[2]), QOf(a[2]))) IN Near(QMul(QOf(r), QOf(r)), s, QMul(s, QI(Bg(8))))
         [] f = "pow" -> PowOK(a[1], a[2], r)
         [] f = "e" -> FloatR(r) /\ Close(RV(r), RE, RE) [] f = "pi" -> FloatR(r) /\ Close(RV(r), RPi, RPi)
         [] f \in {"bit_and", "bit_or", "bit_xor"} -> BitsOK(f, a[1], a[2], r)
         [] f \in {"rand", "rand32", "rand64"} -> RandOK(f, a, r)
         [] f = "strcasecmp" -> r.t = "INT" /\ r.n.s = Cmp3(Lower(a[1].c), Lower(a[2].c))
         [] f = "tostring" -> r.t = "STRING" /\ FloatTextOK(r.c, a[1])
         [] f = "tofloat" -> ToFloatOK(a[1], r) [] f = "tointeger" -> ToIntOK(a[1], r)
         [] f = "hash" -> r.t = "INT"
         [] f = "cos_similarity" -> CosOK(a, r)
         [] f \in {"now", "timestamp"} /\ a = <<>> -> r.t = "INT" /\ NowIn(r.n, lo, hi)
         [] f = "date" /\ a = <<>> -> r.t = "DATE" /\ NowIn(SecsOf(DateDay(r), 86399), lo, BAdd(hi, Bg(86399))) /\ NowIn(SecsOf(DateDay(r), 0), BSub(lo, Bg(86399)), hi)
         [] f = "time" /\ a = <<>> -> r.t = "TIME" /\ GoodTime(r)
         [] f = "datetime" /\ a = <<>> -> r.t = "DATETIME" /\ GoodDate(r) /\ GoodTime(r) /\ NowIn(SecsOf(DateDay(r), SecOf(r.h, r.mi, r.s)), lo, hi)
         [] f = "date" -> (r.t = "DATE" /\ GoodDate(r)) \/ Same(r, Null("BAD_DATA"))
         [] f = "time" -> (r.t = "TIME" /\ GoodTime(r)) \/ Same(r, Null("BAD_DATA"))
         [] f = "datetime" -> (r.t = "DATETIME" /\ GoodDate(r) /\ GoodTime(r)) \/ Same(r, Null("BAD_DATA"))
         [] f = "timestamp" -> r.t = "INT" \/ Same(r, Null("BAD_DATA"))
=============================================================================
