-------------------------------- MODULE Order --------------------------------
(* How values compare. *)
EXTENDS Value
Rank(v) == CASE v.t = "EMPTY" -> 0 [] v.t = "BOOL" -> 1 [] v.t = "INT" -> 2 [] v.t = "FLOAT" -> 3 [] v.t = "STRING" -> 4 [] v.t = "DATE" -> 5
             [] v.t = "TIME" -> 6 [] v.t = "DATETIME" -> 7 [] v.t = "VERTEX" -> 8 [] v.t = "EDGE" -> 9 [] v.t = "PATH" -> 10 [] v.t = "LIST" -> 11
             [] v.t = "MAP" -> 12 [] v.t = "SET" -> 13 [] v.t = "DATASET" -> 14 [] v.t = "NULL" -> 15
Bytewise == 0
RECURSIVE LexInt(_, _, _)
LexInt(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexInt(a, b, i + 1)
TupLt(a, b) == LexInt(a, b, 1)
DateTup(v) == <<v.y, v.mo, v.d>>
TimeTup(v) == <<v.h, v.mi, v.s, v.us>>
RECURSIVE Eq(_, _)
PropsEq(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : p[i].k = q[i].k /\ Eq(p[i].v, q[i].v)     \* sorted by key
SeqEq(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Eq(p[i], q[i])
VertexEq(a, b) == Eq(a.vid, b.vid) /\ Len(a.tags) = Len(b.tags)
                  /\ \A i \in 1..Len(a.tags) : a.tags[i].name = b.tags[i].name /\ PropsEq(a.tags[i].props, b.tags[i].props)
\* an edge equals itself seen from the other end; its type's name does not matter
EdgeEq(a, b) == /\ a.rank = b.rank /\ PropsEq(a.props, b.props)
                /\ \/ a.ty = b.ty /\ Eq(a.src, b.src) /\ Eq(a.dst, b.dst)
                   \/ a.ty # b.ty /\ a.ty = -b.ty /\ Eq(a.src, b.dst) /\ Eq(a.dst, b.src)
StepEq(s, u) == VertexEq(s.dst, u.dst) /\ s.ty = u.ty /\ s.name = u.name /\ s.rank = u.rank /\ PropsEq(s.props, u.props)
PathEq(a, b) == VertexEq(a.src, b.src) /\ Len(a.steps) = Len(b.steps) /\ \A i \in 1..Len(a.steps) : StepEq(a.steps[i], b.steps[i])
SetEq(p, q) == Len(p) = Len(q) /\ (\A i \in 1..Len(p) : \E j \in 1..Len(q) : Eq(p[i], q[j])) /\ (\A j \in 1..Len(q) : \E i \in 1..Len(p) : Eq(p[i], q[j]))
Eq(a, b) ==
  IF a.t # b.t /\ ~(IsNum(a) /\ IsNum(b)) THEN FALSE
  ELSE CASE a.t \in {"EMPTY", "NULL"} -> TRUE                 \* all nulls are alike
         [] a.t = "INT" /\ b.t = "INT" -> a.n = b.n
         [] IsNum(a) /\ ~(a.t = "INT" /\ b.t = "INT") -> Within(QSub(QOf(a), QOf(b)))
         [] a.t = "VERTEX" -> VertexEq(a, b)
         [] a.t = "EDGE" -> EdgeEq(a, b)
         [] a.t = "PATH" -> PathEq(a, b)
         [] a.t = "LIST" -> SeqEq(a.v, b.v)
         [] a.t = "MAP" -> PropsEq(a.v, b.v)
         [] a.t = "SET" -> SetEq(a.v, b.v)
         [] a.t = "DATASET" -> a.cols = b.cols /\ Len(a.rows) = Len(b.rows) /\ \A i \in 1..Len(a.rows) : SeqEq(a.rows[i], b.rows[i])
         [] OTHER -> a = b
RECURSIVE Lt(_, _)
RECURSIVE LexV(_, _, _)
\* lexicographic, by the order of the elements
LexV(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                 ELSE IF Lt(a[i], b[i]) THEN TRUE ELSE IF Lt(b[i], a[i]) THEN FALSE ELSE LexV(a, b, i + 1)
VertexLt(a, b) == IF ~Eq(a.vid, b.vid) THEN Lt(a.vid, b.vid) ELSE Len(a.tags) < Len(b.tags)
EdgeLt(a, b) == IF ~Eq(a.src, b.src) THEN Lt(a.src, b.src) ELSE IF ~Eq(a.dst, b.dst) THEN Lt(a.dst, b.dst)
                ELSE TupLt(<<a.ty, a.rank, Len(a.props)>>, <<b.ty, b.rank, Len(b.props)>>)
StepLt(s, u) == IF ~VertexEq(s.dst, u.dst) THEN VertexLt(s.dst, u.dst)
                ELSE TupLt(<<s.ty, s.rank, Len(s.props)>>, <<u.ty, u.rank, Len(u.props)>>)
RECURSIVE LexS(_, _, _)
LexS(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                 ELSE IF StepLt(a[i], b[i]) THEN TRUE ELSE IF StepLt(b[i], a[i]) THEN FALSE ELSE LexS(a, b, i + 1)
Lt(a, b) ==
  IF a.t # b.t /\ ~(IsNum(a) /\ IsNum(b)) THEN Rank(a) < Rank(b)
  ELSE CASE a.t = "BOOL" -> ~a.b /\ b.b
         [] IsNum(a) -> QLt(QOf(a), QOf(b))
         [] a.t = "STRING" -> TupLt(a.c, b.c)
         [] a.t = "DATE" -> TupLt(DateTup(a), DateTup(b))
         [] a.t = "TIME" -> TupLt(TimeTup(a), TimeTup(b))
         [] a.t = "DATETIME" -> TupLt(DateTup(a) \o TimeTup(a), DateTup(b) \o TimeTup(b))
         [] a.t = "VERTEX" -> VertexLt(a, b)
         [] a.t = "EDGE" -> EdgeLt(a, b)
         [] a.t = "PATH" -> IF ~VertexEq(a.src, b.src) THEN VertexLt(a.src, b.src) ELSE LexS(a.steps, b.steps, 1)
         [] a.t = "LIST" -> LexV(a.v, b.v, 1)
         [] OTHER -> FALSE                                     \* maps, sets, datasets, nulls, empties
\* the comparisons of the query language: a missing side gives null (or empty), types that
\* do not compare give null (order) or false (equality)
Less(a, b) == IF IsEmpty(a) \/ IsEmpty(b) THEN (IF IsNull(a) \/ IsNull(b) THEN Null("NULL") ELSE Empty)
              ELSE IF IsNull(a) \/ IsNull(b) THEN Null("NULL")
              ELSE IF a.t # b.t /\ ~(IsNum(a) /\ IsNum(b)) THEN Null("NULL")
              ELSE IF IsNum(a) THEN Bool(Lt(a, b) /\ ((a.t = "INT" /\ b.t = "INT") \/ ~Eq(a, b)))
              ELSE Bool(Lt(a, b))
Equal3(a, b) == IF IsNull(a) \/ IsNull(b) THEN Null("NULL") ELSE Bool(Eq(a, b))
=============================================================================
