-------------------------------- MODULE Expr --------------------------------
(* Expressions: what they evaluate to, how they are printed and encoded, and when
   they are equal.  An expression is a record: k its kind, x its parts in order, s its
   texts, b its choices, i its numbers, v a constant (w its bytes), o the text it came
   from.  Variables are a log of what they were set to, the latest first. *)
EXTENDS Fun, Words
\* ------ the context
Prop(c, w, s, k) == IF \E i \in 1..Len(c.props) : c.props[i].w = w /\ c.props[i].s = s /\ c.props[i].k = k
                    THEN (CHOOSE p \in {c.props[i] : i \in 1..Len(c.props)} : p.w = w /\ p.s = s /\ p.k = k).v
                    ELSE Null("UNKNOWN_PROP")
SetVar(e, n, v) == <<[n |-> n, v |-> v]>> \o e
Versions(e, n) == SelectSeq(e, LAMBDA x : x.n = n)
\* 0 is the latest, -1 the one before; 1 the first, 2 the second
Version(e, n, i) == LET s == Versions(e, n) j == IF i > 0 THEN Len(s) + 1 - i ELSE 1 - i IN IF j \in 1..Len(s) THEN s[j].v ELSE Null("NULL")
Var(e, n) == Version(e, n, 0)
\* ------ evaluation: the value v, and the variables e afterwards
R(v, e) == [v |-> v, e |-> e]
Arith == {"Add", "Minus", "Multiply", "Division", "Mod"}
Relation == {"RelEQ", "RelNE", "RelLT", "RelLE", "RelGT", "RelGE"}
TextRels == {"Contains", "NotContains", "StartsWith", "NotStartsWith", "EndsWith", "NotEndsWith"}
Logical == {"LogicalAnd", "LogicalOr", "LogicalXor"}
EdgeProps == {"EdgeProperty", "EdgeSrc", "EdgeType", "EdgeRank", "EdgeDst"}
Lazy == Logical \cup {"Case", "SubscriptRange", "ListComprehension", "Predicate", "Reduce", "UnaryIncr", "UnaryDecr", "PathBuild", "Aggregate"}
Binary(k, a, b) == CASE k = "Add" -> Plus(a, b) [] k = "Minus" -> Minus(a, b) [] k = "Multiply" -> Times(a, b) [] k = "Division" -> Over(a, b)
                     [] k = "Mod" -> Modulo(a, b) [] k \in Relation -> Compare(k, a, b) [] k \in TextRels -> TextRel(k, a, b)
                     [] k = "RelIn" -> In(a, b) [] k = "RelNotIn" -> Not(In(a, b)) [] k = "Subscript" -> Subscript(a, b)
                     [] k = "Attribute" -> Attribute(a, b)
\* a pattern without special characters matches itself alone
Plain(c) == \A i \in 1..Len(c) : c[i] \in (48..57) \cup (65..90) \cup (97..122)
Matches(a, b) == IF BadNull(a) \/ BadNull(b) \/ a.t \notin {"NULL", "STRING"} \/ b.t \notin {"NULL", "STRING"} THEN BadType
                 ELSE IF IsNull(a) \/ IsNull(b) THEN Null("NULL")
                 ELSE IF Plain(b.c) THEN Bool(a.c = b.c)
                 ELSE IF b.c = <<46, 42>> THEN (IF \E i \in 1..Len(a.c) : a.c[i] \in {10, 13} THEN Free ELSE Bool(TRUE))          \* .*
                 ELSE IF Len(b.c) > 2 /\ SubSeq(b.c, Len(b.c) - 1, Len(b.c)) = <<46, 42>> /\ Plain(SubSeq(b.c, 1, Len(b.c) - 2)) /\ ~\E i \in 1..Len(a.c) : a.c[i] \in {10, 13}
                   THEN Bool(Starts(a.c, SubSeq(b.c, 1, Len(b.c) - 2)))
                 ELSE IF b.c = <<40>> THEN BadType ELSE Free                                                                      \* ( is no pattern
Unary(k, a) == IF IsOpen(a) THEN Free ELSE
               CASE k = "UnaryPlus" -> a [] k = "UnaryNegate" -> Negate(a) [] k = "UnaryNot" -> Not(a)
                 [] k = "IsNull" -> Bool(IsNull(a)) [] k = "IsNotNull" -> Bool(~IsNull(a)) [] k = "IsEmpty" -> Bool(IsEmpty(a)) [] k = "IsNotEmpty" -> Bool(~IsEmpty(a))
Cast(n, a) == IF IsOpen(a) THEN Free ELSE
              CASE n = 1 -> AsBool(a) [] n = 2 -> AsInt(a) [] n = 3 -> AsFloat(a) [] n = 4 -> AsText(a) [] OTHER -> Null("NULL")
\* a set keeps the first of equal values
RECURSIVE Distinct(_, _)
Distinct(s, acc) == IF s = <<>> THEN acc ELSE Distinct(SubSeq(s, 2, Len(s)), IF \E i \in 1..Len(acc) : Eq(acc[i], s[1]) THEN acc ELSE Append(acc, s[1]))
RECURSIVE CodeLt(_, _)
CodeLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE CodeLt(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
\* a map keeps the first of equal keys; entries sorted
RECURSIVE Insert(_, _)
Insert(s, p) == IF s = <<>> THEN <<p>> ELSE IF p.k = s[1].k THEN s ELSE IF CodeLt(p.k, s[1].k) THEN <<p>> \o s ELSE <<s[1]>> \o Insert(SubSeq(s, 2, Len(s)), p)
RECURSIVE MapFrom(_, _, _)
MapFrom(ks, vs, acc) == IF ks = <<>> THEN acc ELSE MapFrom(SubSeq(ks, 2, Len(ks)), SubSeq(vs, 2, Len(vs)), Insert(acc, [k |-> ks[1], v |-> vs[1]]))
\* of evaluated parts
Strict(x, c, a) == IF AnyOpen(a) THEN Free ELSE
  CASE x.k \in Arith \cup Relation \cup TextRels \cup {"RelIn", "RelNotIn", "Subscript", "Attribute"} -> Binary(x.k, a[1], a[2])
    [] x.k = "RelREG" -> Matches(a[1], a[2])
    [] x.k \in {"UnaryPlus", "UnaryNegate", "UnaryNot", "IsNull", "IsNotNull", "IsEmpty", "IsNotEmpty"} -> Unary(x.k, a[1])
    [] x.k = "TypeCasting" -> Cast(x.i[1], a[1])
    [] x.k = "List" -> ListOf(a) [] x.k = "Set" -> [t |-> "SET", v |-> Distinct(a, <<>>)] [] x.k = "Map" -> [t |-> "MAP", v |-> MapFrom(x.s, a, <<>>)]
    [] x.k = "FunctionCall" -> Call(x.s[1], a)
    [] x.k = "Constant" -> x.v [] x.k = "Label" -> Str(x.s[1]) [] x.k = "UUID" -> Empty
    [] x.k = "InputProperty" -> Prop(c, "input", <<>>, x.s[3]) [] x.k = "VarProperty" -> Prop(c, "var", x.s[2], x.s[3])
    [] x.k = "TagProperty" -> Prop(c, "tag", x.s[2], x.s[3]) [] x.k \in EdgeProps -> Prop(c, "edge", x.s[2], x.s[3])
    [] x.k = "SrcProperty" -> Prop(c, "src", x.s[2], x.s[3]) [] x.k = "DstProperty" -> Prop(c, "dst", x.s[2], x.s[3])
    [] x.k = "Vertex" -> c.vertex [] x.k = "Edge" -> c.edge
    [] x.k = "Column" -> IF x.i[1] \in 0..Len(c.cols) - 1 THEN c.cols[x.i[1] + 1] ELSE Null("NULL")
RECURSIVE Eval(_, _, _)
RECURSIVE EvalSeq(_, _, _, _)
EvalSeq(xs, c, e, acc) == IF xs = <<>> THEN [v |-> acc, e |-> e]
                          ELSE LET r == Eval(xs[1], c, e) IN EvalSeq(SubSeq(xs, 2, Len(xs)), c, r.e, Append(acc, r.v))
\* and, or: stop is the value that decides. A bad null decides too; then null, empty.
RECURSIVE AndOr(_, _, _, _, _)
AndOr(xs, stop, c, e, acc) == IF xs = <<>> THEN R(acc, e)
  ELSE LET r == Eval(xs[1], c, e) v == r.v go(a) == AndOr(SubSeq(xs, 2, Len(xs)), stop, c, r.e, a) IN
       IF IsOpen(v) THEN r
       ELSE IF BadNull(v) \/ (v.t = "BOOL" /\ v.b = stop) THEN r
       ELSE IF v.t = "BOOL" THEN go(acc)
       ELSE IF IsNull(v) THEN go(v)
       ELSE IF IsEmpty(v) THEN go(IF IsNull(acc) THEN acc ELSE v)
       ELSE R(BadType, r.e)
RECURSIVE Xor(_, _, _, _)
Xor(xs, c, e, acc) == IF xs = <<>> THEN R(acc, e)
  ELSE LET r == Eval(xs[1], c, e) v == r.v go(a) == Xor(SubSeq(xs, 2, Len(xs)), c, r.e, a) IN
       IF IsOpen(v) \/ IsNull(v) THEN r
       ELSE IF IsEmpty(v) THEN go(v)
       ELSE IF v.t # "BOOL" THEN R(BadType, r.e)
       ELSE IF IsEmpty(acc) THEN go(acc) ELSE go(Bool(v.b # acc.b))
\* the first case that holds: equal to the condition, or true
RECURSIVE Cases(_, _, _, _, _, _)
Cases(xs, has, cond, other, c, e) == IF xs = <<>> THEN (IF other = <<>> THEN R(Null("NULL"), e) ELSE Eval(other[1], c, e))
  ELSE LET w == Eval(xs[1], c, e) IN
       IF IsOpen(w.v) THEN w
       ELSE IF ~has /\ w.v.t # "BOOL" THEN R(BadType, w.e)
       ELSE IF (IF has THEN Eq(cond, w.v) ELSE w.v.b) THEN Eval(xs[2], c, w.e)
       ELSE Cases(SubSeq(xs, 3, Len(xs)), has, cond, other, c, w.e)
Case(x, c, e) ==
  LET has == x.b[2] r == IF has THEN Eval(x.x[1], c, e) ELSE R(Empty, e)
      j == IF has THEN 2 ELSE 1
      other == IF x.b[3] THEN <<x.x[j]>> ELSE <<>>
  IN IF IsOpen(r.v) THEN r ELSE Cases(SubSeq(x.x, IF x.b[3] THEN j + 1 ELSE j, Len(x.x)), has, r.v, other, c, r.e)
Range(x, c, e) ==
  LET l == Eval(x.x[1], c, e) IN
  IF IsOpen(l.v) THEN l ELSE IF l.v.t # "LIST" THEN R(BadType, l.e) ELSE
  LET n == Len(l.v.v) lo == IF x.b[1] THEN Eval(x.x[2], c, l.e) ELSE R(Int32(0), l.e) IN
  IF IsOpen(lo.v) THEN lo ELSE IF IsNull(lo.v) THEN R(Null("NULL"), lo.e) ELSE IF lo.v.t # "INT" THEN R(BadType, lo.e) ELSE
  LET hi == IF x.b[2] THEN Eval(x.x[Len(x.x)], c, lo.e) ELSE R(Int32(n), lo.e) IN
  IF IsOpen(hi.v) THEN hi ELSE IF IsNull(hi.v) THEN R(Null("NULL"), hi.e) ELSE IF hi.v.t # "INT" THEN R(BadType, hi.e) ELSE
  R(ListOf(Slice(l.v.v, Clamp(lo.v.n, n), Clamp(hi.v.n, n))), hi.e)
\* a filter says yes, no or that it is none
Says(v) == IF v.t = "BOOL" /\ v.b THEN "yes" ELSE IF v.t = "BOOL" \/ IsNull(v) \/ IsEmpty(v) THEN "no" ELSE "none"
RECURSIVE Comprehend(_, _, _, _, _)
Comprehend(x, s, c, e, acc) == IF s = <<>> THEN R(ListOf(acc), e)
  ELSE LET e1 == SetVar(e, x.s[1], s[1])
           f == IF x.b[1] THEN Eval(x.x[2], c, e1) ELSE R(Bool(TRUE), e1)
           rest == SubSeq(s, 2, Len(s))
       IN IF IsOpen(f.v) THEN f
          ELSE IF Says(f.v) = "none" THEN R(BadType, f.e)
          ELSE IF Says(f.v) = "no" THEN Comprehend(x, rest, c, f.e, acc)
          ELSE LET m == IF x.b[2] THEN Eval(x.x[Len(x.x)], c, f.e) ELSE R(s[1], f.e) IN
               IF IsOpen(m.v) THEN m ELSE Comprehend(x, rest, c, m.e, Append(acc, m.v))
\* n counts how many said yes
RECURSIVE Quantify(_, _, _, _, _, _)
AllC == <<97, 108, 108>>
AnyC == <<97, 110, 121>>
SingleC == <<115, 105, 110, 103, 108, 101>>
NoneC == <<110, 111, 110, 101>>
ExistsC == <<101, 120, 105, 115, 116, 115>>
Quantify(q, x, s, c, e, n) ==
  IF s = <<>> THEN R(Bool(CASE q = AllC -> TRUE [] q = AnyC -> FALSE [] q = SingleC -> n = 1 [] q = NoneC -> TRUE), e)
  ELSE LET f == Eval(x.x[2], c, SetVar(e, x.s[2], s[1])) y == Says(f.v)
           go(m) == Quantify(q, x, SubSeq(s, 2, Len(s)), c, f.e, m) IN
       IF IsOpen(f.v) THEN f ELSE IF y = "none" THEN R(BadType, f.e)
       ELSE IF q = AllC THEN (IF y = "no" THEN R(Bool(FALSE), f.e) ELSE go(n))
       ELSE IF y = "no" THEN go(n)
       ELSE IF q = AnyC THEN R(Bool(TRUE), f.e) ELSE IF q = NoneC THEN R(Bool(FALSE), f.e)
       ELSE IF n = 1 THEN R(Bool(FALSE), f.e) ELSE go(1)
Exists(a, b) == IF IsOpen(a) \/ IsOpen(b) THEN Free
                ELSE IF b.t # "STRING" THEN BadType
                ELSE CASE a.t \in {"VERTEX", "EDGE", "MAP"} -> Bool(~IsNull(ValueOf(a, b.c))) [] IsNull(a) -> Null("NULL") [] OTHER -> BadType
RECURSIVE Fold(_, _, _, _)
Fold(x, s, c, e) == IF s = <<>> THEN R(Var(e, x.s[1]), e)
  ELSE LET m == Eval(x.x[3], c, SetVar(e, x.s[2], s[1])) IN
       IF IsOpen(m.v) THEN m ELSE Fold(x, SubSeq(s, 2, Len(s)), c, SetVar(m.e, x.s[1], m.v))
\* over a list: what is missing stays missing
OverList(l, f) == IF IsOpen(l.v) \/ IsNull(l.v) \/ IsEmpty(l.v) THEN l ELSE IF l.v.t # "LIST" THEN R(BadType, l.e) ELSE f
\* paths grow by edges and vertices that fit
Node(v) == IF v.t \in {"STRING", "INT"} THEN [t |-> "VERTEX", vid |-> v, tags |-> <<>>] ELSE IF v.t = "VERTEX" THEN v ELSE IF v.t = "PATH" THEN v.src ELSE Empty
StepOf(ed) == [dst |-> [t |-> "VERTEX", vid |-> ed.dst, tags |-> <<>>], ty |-> ed.ty, name |-> ed.name, rank |-> ed.rank, props |-> ed.props]
RECURSIVE Grow(_, _, _, _, _)
Grow(xs, i, c, e, p) == IF xs = <<>> THEN R(p, e)
  ELSE LET r == Eval(xs[1], c, e) v == r.v none == Len(p.steps) = 0 end == p.steps[Len(p.steps)].dst
           go(q) == Grow(SubSeq(xs, 2, Len(xs)), i + 1, c, r.e, q)
           to(n) == [p EXCEPT !.steps[Len(p.steps)].dst = n]
           bad == R(Null("BAD_DATA"), r.e) IN
       CASE IsOpen(v) -> r
         [] v.t = "EDGE" -> IF none THEN (IF Eq(p.src.vid, v.src) THEN go([p EXCEPT !.steps = <<StepOf(v)>>]) ELSE R(Free, r.e))
                            ELSE IF ~Eq(end.vid, v.src) THEN bad ELSE go([p EXCEPT !.steps = Append(@, StepOf(v))])
         [] v.t = "VERTEX" -> IF none THEN bad ELSE IF ~Eq(end.vid, v.vid) THEN bad ELSE go(to(v))
         [] v.t = "PATH" -> IF none THEN (IF VertexEq(p.src, v.src) THEN go([p EXCEPT !.steps = v.steps]) ELSE R(Free, r.e))
                            ELSE IF ~Eq(end.vid, v.src.vid) THEN bad ELSE go([to(v.src) EXCEPT !.steps = @ \o v.steps])
         [] OTHER -> IF v.t \notin {"STRING", "INT"} THEN bad
                     ELSE IF ~none /\ i % 2 = 0 /\ Eq(end.vid, v) THEN go(to(Node(v))) ELSE IF none \/ i % 2 = 1 THEN bad ELSE R(Free, r.e)
PathBuild(x, c, e) == IF x.x = <<>> THEN R(Null("NULL"), e) ELSE
  LET r == Eval(x.x[1], c, e) IN
  IF IsOpen(r.v) THEN r ELSE IF Node(r.v) = Empty THEN R(BadType, r.e)
  ELSE Grow(SubSeq(x.x, 2, Len(x.x)), 1, c, r.e, [t |-> "PATH", src |-> Node(r.v), steps |-> IF r.v.t = "PATH" THEN r.v.steps ELSE <<>>])
Eval(x, c, e) ==
  CASE x.k \notin Lazy /\ x.k \notin {"Var", "VersionedVar"} -> LET r == EvalSeq(x.x, c, e, <<>>) IN R(Strict(x, c, r.v), r.e)
    [] x.k = "Var" -> R(Var(e, x.s[1]), e)
    [] x.k = "VersionedVar" -> IF x.x = <<>> THEN R(Var(e, x.s[1]), e)
         ELSE LET r == Eval(x.x[1], c, e) IN IF IsOpen(r.v) THEN r ELSE IF r.v.t # "INT" THEN R(BadType, r.e)
              ELSE R(Version(r.e, x.s[1], IF Fits32(r.v.n) THEN Small(r.v.n) ELSE 999999999), r.e)
    [] x.k \in {"UnaryIncr", "UnaryDecr"} ->
         IF x.x[1].k \notin {"Var", "VersionedVar"} THEN R(BadType, e)
         ELSE LET r == Eval(x.x[1], c, e) v == IF x.k = "UnaryIncr" THEN Plus(r.v, Int32(1)) ELSE Minus(r.v, Int32(1)) IN R(v, SetVar(r.e, x.x[1].s[1], v))
    [] x.k = "LogicalAnd" -> AndOr(x.x, FALSE, c, e, Bool(TRUE))
    [] x.k = "LogicalOr" -> AndOr(x.x, TRUE, c, e, Bool(FALSE))
    [] x.k = "LogicalXor" -> Xor(x.x, c, e, Bool(FALSE))
    [] x.k = "Case" -> Case(x, c, e)
    [] x.k = "SubscriptRange" -> Range(x, c, e)
    [] x.k = "ListComprehension" -> LET l == Eval(x.x[1], c, e) IN OverList(l, IF ~x.b[1] /\ ~x.b[2] THEN l ELSE Comprehend(x, l.v.v, c, l.e, <<>>))
    [] x.k = "Predicate" ->
         IF x.s[1] = ExistsC THEN LET r == EvalSeq(x.x[1].x, c, e, <<>>) IN R(Exists(r.v[1], r.v[2]), r.e)
         ELSE IF x.s[1] \notin {AllC, AnyC, SingleC, NoneC} THEN R(BadType, e)
         ELSE LET l == Eval(x.x[1], c, e) IN OverList(l, Quantify(x.s[1], x, l.v.v, c, l.e, 0))
    [] x.k = "Reduce" -> LET i == Eval(x.x[1], c, e) l == Eval(x.x[2], c, i.e) IN
                         IF IsOpen(i.v) THEN i ELSE OverList(l, Fold(x, l.v.v, c, SetVar(l.e, x.s[1], i.v)))
    [] x.k = "PathBuild" -> PathBuild(x, c, e)
    [] OTHER -> R(Free, e)
\* ------ equality: the same shape, and equal constants
RECURSIVE Alike(_, _)
Alike(x, y) == /\ x.k = y.k /\ Len(x.x) = Len(y.x) /\ \A i \in 1..Len(x.x) : Alike(x.x[i], y.x[i])
               /\ x.s = y.s /\ x.i = y.i
               /\ IF x.k = "Constant" THEN Eq(x.v, y.v) ELSE x.k = "Var" \/ x.b = y.b      \* inner variables are variables
\* ------ text; -1 stands for what is left open
Unknown == <<-1>>
Show(v) == IF Vague(v) THEN Unknown ELSE Printed(v)
OpText(k) == CASE k = "Add" -> <<43>> [] k = "Minus" -> <<45>> [] k = "Multiply" -> <<42>> [] k = "Division" -> <<47>> [] k = "Mod" -> <<37>>
  [] k = "RelLT" -> <<60>> [] k = "RelLE" -> <<60, 61>> [] k = "RelGT" -> <<62>> [] k = "RelGE" -> <<62, 61>> [] k = "RelEQ" -> <<61, 61>> [] k = "RelNE" -> <<33, 61>>
  [] k = "RelREG" -> <<61, 126>> [] k = "RelIn" -> W_InT [] k = "RelNotIn" -> W_NotIn [] k = "Contains" -> W_Contains [] k = "NotContains" -> W_NotContains
  [] k = "StartsWith" -> W_Starts [] k = "NotStartsWith" -> W_NotStarts [] k = "EndsWith" -> W_Ends [] k = "NotEndsWith" -> W_NotEnds
  [] k = "LogicalAnd" -> W_And [] k = "LogicalOr" -> W_Or [] k = "LogicalXor" -> W_Xor
  [] k = "UnaryPlus" -> <<43>> [] k = "UnaryNegate" -> <<45>> [] k = "UnaryNot" -> <<33>> [] k = "UnaryIncr" -> <<43, 43>> [] k = "UnaryDecr" -> <<45, 45>>
  [] k = "IsNull" -> W_IsNull [] k = "IsNotNull" -> W_IsNotNull [] k = "IsEmpty" -> W_IsEmpty [] k = "IsNotEmpty" -> W_IsNotEmpty
  [] k = "TSWildcard" -> W_Wildcard [] k = "TSPrefix" -> W_Prefix [] k = "TSFuzzy" -> W_Fuzzy [] k = "TSRegexp" -> W_Regexp
TypeText(n) == CASE n = 0 -> W_TEmpty [] n = 1 -> W_TBool [] n = 2 -> W_TInt [] n = 3 -> W_TFloat [] n = 4 -> W_TString [] n = 5 -> W_TDate [] n = 6 -> W_TTime
  [] n = 7 -> W_TDateTime [] n = 8 -> W_TVertex [] n = 9 -> W_TEdge [] n = 10 -> W_TPath [] n = 11 -> W_TList [] n = 12 -> W_TMap [] n = 13 -> W_TSet [] n = 14 -> W_TDataSet
  [] n = 63 -> W_TNull
Suffixes == {"IsNull", "IsNotNull", "IsEmpty", "IsNotEmpty"}
Prefixes == {"UnaryPlus", "UnaryNegate", "UnaryNot", "UnaryIncr", "UnaryDecr"}
Props == {"InputProperty", "TagProperty", "SrcProperty", "DstProperty"} \cup EdgeProps
TextSearch == {"TSWildcard", "TSPrefix", "TSFuzzy", "TSRegexp"}
Infix == Arith \cup Relation \cup TextRels \cup {"RelREG", "RelIn", "RelNotIn"}
Dotted(s) == IF s = <<>> THEN <<>> ELSE s \o <<46>>
RECURSIVE Glue(_, _)
Glue(ss, by) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o by \o Glue(SubSeq(ss, 2, Len(ss)), by)
\* "from.prop, "val"[, fuzziness, op][, limit][, timeout]"
SearchText(x) == x.s[1] \o <<46>> \o x.s[2] \o W_Comma \o <<34>> \o x.s[3] \o <<34>>
  \o (IF x.i[1] = -1 THEN W_AutoT \o (IF x.s[4] = W_or THEN W_OrT ELSE W_AndT)
      ELSE IF x.i[1] > -1 THEN W_Comma \o DecOf(x.i[1]) \o W_Comma \o (IF x.s[4] = W_or THEN W_OrT ELSE W_AndT) ELSE <<>>)
  \o (IF x.i[2] # -1 THEN W_Comma \o DecOf(x.i[2]) ELSE <<>>) \o (IF x.i[3] # -1 THEN W_Comma \o DecOf(x.i[3]) ELSE <<>>)
RECURSIVE Text(_)
Text(x) ==
  LET t(i) == Text(x.x[i]) n == Len(x.x) all == [i \in 1..n |-> Text(x.x[i])] IN
  CASE x.k = "Constant" -> Show(x.v)
    [] x.k \in Infix -> <<40>> \o t(1) \o OpText(x.k) \o t(2) \o <<41>>
    [] x.k \in Logical -> <<40>> \o Glue(all, OpText(x.k)) \o <<41>>
    [] x.k \in Prefixes -> OpText(x.k) \o <<40>> \o t(1) \o <<41>>
    [] x.k \in Suffixes -> t(1) \o OpText(x.k)
    [] x.k = "Subscript" -> t(1) \o <<91>> \o t(2) \o <<93>>
    [] x.k = "SubscriptRange" -> t(1) \o <<91>> \o (IF x.b[1] THEN t(2) ELSE <<>>) \o <<46, 46>> \o (IF x.b[2] THEN t(n) ELSE <<>>) \o <<93>>
    [] x.k \in {"Attribute", "LabelAttribute"} -> t(1) \o <<46>> \o (IF x.x[2].k = "Constant" /\ x.x[2].v.t = "STRING" THEN x.x[2].v.c ELSE t(2))
    [] x.k = "Label" -> x.s[1]
    [] x.k = "Column" -> W_Column \o DecOf(x.i[1]) \o <<93>>
    [] x.k = "TypeCasting" -> <<40>> \o TypeText(x.i[1]) \o <<41>> \o t(1)
    [] x.k = "FunctionCall" -> x.s[1] \o <<40>> \o Glue(all, <<44>>) \o <<41>>
    [] x.k \in Props -> Dotted(x.s[1]) \o Dotted(x.s[2]) \o x.s[3]
    [] x.k = "VarProperty" -> x.s[1] \o Dotted(x.s[2]) \o x.s[3]
    [] x.k = "Vertex" -> W_Vertex [] x.k = "Edge" -> W_Edge
    [] x.k = "UUID" -> W_Uuid \o x.s[1] \o W_UuidEnd
    [] x.k = "Var" -> IF x.s[1] = <<>> THEN <<>> ELSE <<36>> \o x.s[1]
    [] x.k = "VersionedVar" -> IF x.s[1] = <<>> THEN <<>> ELSE <<36>> \o x.s[1] \o (IF n = 0 THEN <<>> ELSE <<123>> \o t(1) \o <<125>>)
    [] x.k = "List" -> <<91>> \o Glue(all, <<44>>) \o <<93>>
    [] x.k = "Set" -> <<123>> \o Glue(all, <<44>>) \o <<125>>
    [] x.k = "Map" -> <<123>> \o Glue([i \in 1..n |-> x.s[i] \o <<58>> \o t(i)], <<44>>) \o <<125>>
    [] x.k = "PathBuild" -> W_PathBuild \o Glue(all, <<44>>) \o <<93>>
    [] x.k = "Case" ->
         LET j == (IF x.b[2] THEN 1 ELSE 0) + (IF x.b[3] THEN 1 ELSE 0)
             other == IF x.b[3] THEN t(j) ELSE <<>>
             ws == [i \in 1..(n - j) \div 2 |-> W_When \o t(j + 2 * i - 1) \o W_Then \o t(j + 2 * i)]
         IN IF x.b[1] THEN W_Case \o (IF x.b[2] THEN <<32>> \o t(1) ELSE <<>>) \o Glue(ws, <<>>) \o (IF x.b[3] THEN W_Else \o other ELSE <<>>) \o W_End
            ELSE <<40>> \o t(j + 1) \o W_Quest \o t(j + 2) \o W_Colon \o other \o <<41>>
    [] x.k = "Predicate" -> x.s[1] \o <<40>> \o (IF x.s[1] = ExistsC THEN t(1) ELSE x.s[2] \o W_InT \o t(1) \o W_Where \o t(2)) \o <<41>>
    [] x.k = "ListComprehension" -> <<91>> \o x.s[1] \o W_InT \o t(1) \o (IF x.b[1] THEN W_Where \o t(2) ELSE <<>>) \o (IF x.b[2] THEN W_Bar \o t(n) ELSE <<>>) \o <<93>>
    [] x.k = "Reduce" -> W_Reduce \o x.s[1] \o W_Is \o t(1) \o W_Comma \o x.s[2] \o W_InT \o t(2) \o W_Bar \o t(3) \o <<41>>
    [] x.k = "Aggregate" -> x.s[1] \o <<40>> \o (IF x.b[1] THEN W_Distinct ELSE <<>>) \o (IF x.x[1].k = "Constant" /\ x.x[1].v.t = "STRING" THEN x.x[1].v.c ELSE t(1)) \o <<41>>
    [] x.k \in TextSearch -> OpText(x.k) \o SearchText(x) \o <<41>>
RawText(x) == IF x.o # <<>> /\ x.k \in {"Predicate", "ListComprehension", "Reduce"} THEN x.o ELSE Text(x)
TextIs(c, t) == (\E i \in 1..Len(t) : t[i] = -1) \/ c = t
\* ------ encoding
Kinds == <<"Constant", "Add", "Minus", "Multiply", "Division", "Mod", "UnaryPlus", "UnaryNegate", "UnaryNot", "UnaryIncr", "UnaryDecr", "RelEQ", "RelNE", "RelLT", "RelLE",
  "RelGT", "RelGE", "RelREG", "RelIn", "RelNotIn", "Contains", "NotContains", "StartsWith", "NotStartsWith", "EndsWith", "NotEndsWith", "Subscript", "Attribute",
  "LabelAttribute", "Column", "LogicalAnd", "LogicalOr", "LogicalXor", "TypeCasting", "FunctionCall", "TagProperty", "EdgeProperty", "InputProperty", "VarProperty",
  "DstProperty", "SrcProperty", "EdgeSrc", "EdgeType", "EdgeRank", "EdgeDst", "Vertex", "Edge", "UUID", "Var", "VersionedVar", "List", "Set", "Map", "Label", "Case",
  "Predicate", "ListComprehension", "Reduce", "PathBuild", "TSPrefix", "TSWildcard", "TSRegexp", "TSFuzzy", "Aggregate", "IsNull", "IsNotNull", "IsEmpty", "IsNotEmpty",
  "SubscriptRange">>
KindByte(k) == (CHOOSE i \in 1..Len(Kinds) : Kinds[i] = k) - 1
\* 64 bits, little endian
Size(n) == LET h == IF n < 0 THEN 255 ELSE 0 IN <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256, h, h, h, h>>
StrB(s) == Size(Len(s)) \o s
Bit(n) == [i \in 1..8 |-> IF (n \div 8) + 1 = i THEN 2 ^ (n % 8) ELSE 0]
RECURSIVE Bytes(_, _)
\* w(b): the bytes of a boolean value
Bytes(x, w) ==
  LET kb == <<KindByte(x.k)>> t(i) == Bytes(x.x[i], w) n == Len(x.x) all == Glue([i \in 1..n |-> Bytes(x.x[i], w)], <<>>) flag(f) == IF f THEN w[1] ELSE w[2]
      origin == IF x.o # <<>> THEN StrB(x.o) ELSE <<>> IN
  CASE x.k = "Constant" -> kb \o x.w
    [] x.k \in Logical \cup {"List", "Set", "PathBuild"} -> kb \o Size(n) \o all
    [] x.k = "SubscriptRange" -> kb \o t(1) \o Size(IF x.b[1] /\ x.b[2] THEN 2 ELSE 1) \o (IF x.b[1] THEN Size(0) \o t(2) ELSE <<>>) \o (IF x.b[2] THEN Size(1) \o t(n) ELSE <<>>)
    [] x.k = "Label" -> kb \o StrB(x.s[1]) [] x.k = "UUID" -> kb \o StrB(x.s[1]) [] x.k = "Var" -> kb \o StrB(x.s[1])
    [] x.k = "Column" -> kb \o Size(x.i[1])
    [] x.k = "TypeCasting" -> kb \o Bit(x.i[1]) \o t(1)
    [] x.k = "FunctionCall" -> kb \o StrB(x.s[1]) \o Size(n) \o all
    [] x.k \in Props -> kb \o StrB(x.s[1]) \o StrB(x.s[2]) \o StrB(x.s[3])
    [] x.k \in {"Vertex", "Edge"} -> kb
    [] x.k = "Map" -> kb \o Size(n) \o Glue([i \in 1..n |-> StrB(x.s[i]) \o t(i)], <<>>)
    [] x.k = "Case" -> LET j == (IF x.b[2] THEN 1 ELSE 0) + (IF x.b[3] THEN 1 ELSE 0) IN
                       kb \o flag(x.b[1]) \o flag(x.b[2]) \o flag(x.b[3]) \o Size((n - j) \div 2) \o all
    [] x.k = "Predicate" -> kb \o flag(x.s[2] # <<>>) \o flag(x.b[1]) \o flag(x.o # <<>>) \o StrB(x.s[1]) \o (IF x.s[2] # <<>> THEN StrB(x.s[2]) ELSE <<>>) \o all \o origin
    [] x.k = "ListComprehension" -> kb \o flag(x.b[1]) \o flag(x.b[2]) \o flag(x.o # <<>>) \o StrB(x.s[1]) \o all \o origin
    [] x.k = "Reduce" -> kb \o flag(x.o # <<>>) \o StrB(x.s[1]) \o t(1) \o StrB(x.s[2]) \o t(2) \o t(3) \o origin
    [] x.k = "Aggregate" -> kb \o StrB(x.s[1]) \o flag(x.b[1]) \o t(1)
    [] OTHER -> kb \o all
\* the visitor's method
Class(k) == CASE k \in Arith -> "Arithmetic" [] k \in Relation \cup TextRels \cup {"RelREG", "RelIn", "RelNotIn"} -> "Relational" [] k \in Logical -> "Logical"
              [] k \in Prefixes \cup Suffixes -> "Unary" [] k = "Var" -> "Variable" [] k = "VersionedVar" -> "VersionedVariable" [] k = "VarProperty" -> "VariableProperty"
              [] k = "DstProperty" -> "DestProperty" [] k = "SrcProperty" -> "SourceProperty" [] k = "EdgeSrc" -> "EdgeSrcId" [] k = "EdgeDst" -> "EdgeDstId"
              [] k \in TextSearch -> "none" [] OTHER -> k
\* what can be cast to what
Castable == [to \in {1, 2, 3, 4} |->
  CASE to = 1 -> {0, 1, 2, 3, 4, 5, 63} [] to = 2 -> {0, 2, 3, 4} [] to = 3 -> {0, 2, 3, 4} [] to = 4 -> {0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 14, 63}]
CanCast(from, to) == to \in {1, 2, 3, 4} /\ from \in Castable[to]
=============================================================================
