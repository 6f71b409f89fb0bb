-------------------------------- MODULE Shape --------------------------------
(* Paths, edges, vertices, collections and data sets: what is done with them, and
   how values are printed. *)
EXTENDS Order
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(SubSeq(ss, 2, Len(ss)))
\* ------ paths
Nodes(p) == [i \in 1..Len(p.steps) + 1 |-> IF i = 1 THEN p.src ELSE p.steps[i - 1].dst]
Last(p) == Nodes(p)[Len(p.steps) + 1]
PathReverse(p) ==
  LET n == Len(p.steps) IN
  [p EXCEPT !.src = Last(p), !.steps = [i \in 1..n |-> [p.steps[n + 1 - i] EXCEPT !.ty = -@, !.dst = Nodes(p)[n + 1 - i]]]]
CanAppend(p, q) == VertexEq(Last(p), q.src)
PathAppend(p, q) == [p EXCEPT !.steps = @ \o q.steps]
DupVertices(p) == Len(p.steps) > 0 /\ \E i, j \in 1..Len(p.steps) + 1 : i < j /\ Eq(Nodes(p)[i].vid, Nodes(p)[j].vid)
\* an edge walked against its direction is the same edge
EdgeOf(p, i) == LET s == p.steps[i] IN
  IF s.ty > 0 THEN <<Nodes(p)[i].vid, Nodes(p)[i + 1].vid, s.ty, s.rank>> ELSE <<Nodes(p)[i + 1].vid, Nodes(p)[i].vid, -s.ty, s.rank>>
DupEdges(p) == \E i, j \in 1..Len(p.steps) : i < j /\ EdgeOf(p, i) = EdgeOf(p, j)
\* ------ edges
EdgeReverse(e) == [e EXCEPT !.src = e.dst, !.dst = e.src, !.ty = -@]
EdgeFormat(e) == IF e.ty < 0 THEN EdgeReverse(e) ELSE e
\* ------ lookups
HasKey(ps, c) == \E i \in 1..Len(ps) : ps[i].k = c
Lookup(ps, c, none) == IF HasKey(ps, c) THEN (CHOOSE x \in {ps[i] : i \in 1..Len(ps)} : x.k = c).v ELSE none
FirstTag(v, c) == CHOOSE i \in 1..Len(v.tags) : HasKey(v.tags[i].props, c) /\ \A j \in 1..i - 1 : ~HasKey(v.tags[j].props, c)
VHas(v, c) == \E i \in 1..Len(v.tags) : HasKey(v.tags[i].props, c)
Contains(a, b) == CASE a.t = "EDGE" -> b.t = "STRING" /\ HasKey(a.props, b.c) [] a.t = "VERTEX" -> b.t = "STRING" /\ VHas(a, b.c)
                    [] a.t = "MAP" -> b.t = "STRING" /\ HasKey(a.v, b.c) [] a.t \in {"LIST", "SET"} -> \E i \in 1..Len(a.v) : Eq(a.v[i], b)
ValueOf(a, c) == CASE a.t = "EDGE" -> Lookup(a.props, c, Null("NULL")) [] a.t = "MAP" -> Lookup(a.v, c, Null("UNKNOWN_PROP"))
                   [] a.t = "VERTEX" -> IF VHas(a, c) THEN Lookup(a.tags[FirstTag(a, c)].props, c, Null("NULL")) ELSE Null("NULL")
\* ------ data sets
Fits(d, row) == Len(row) = Len(d.cols)
AddRow(d, row) == [d EXCEPT !.rows = Append(@, row)]
CanStack(d, o) == d.cols = <<>> \/ d.cols = o.cols
Stack(d, o) == [d EXCEPT !.cols = o.cols, !.rows = @ \o o.rows]
CanJoin(d, o) == Len(d.rows) = Len(o.rows)
Join(d, o) == [d EXCEPT !.cols = @ \o o.cols, !.rows = [i \in 1..Len(d.rows) |-> d.rows[i] \o o.rows[i]]]
ColIx(d, c) == CHOOSE i \in 1..Len(d.cols) : d.cols[i] = c /\ \A j \in 1..i - 1 : d.cols[j] # c
Column(d, c) == IF \E i \in 1..Len(d.cols) : d.cols[i] = c THEN [r \in 1..Len(d.rows) |-> d.rows[r][ColIx(d, c)]] ELSE <<>>
\* ------ texts. The entries of a map or set come in any order, so that there are several.

Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
RECURSIVE Cross(_)
Cross(sets) == IF sets = <<>> THEN {<<>>} ELSE {<<x>> \o r : x \in sets[1], r \in Cross(SubSeq(sets, 2, Len(sets)))}
RECURSIVE JoinC(_)
JoinC(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<44>> \o JoinC(SubSeq(ss, 2, Len(ss)))
\* every way to join one of each with commas: in order, or in any order
InOrder(sets) == {JoinC(x) : x \in Cross(sets)}
AnyOrder(sets) == UNION {InOrder([i \in 1..Len(sets) |-> sets[f[i]]]) : f \in Perms(Len(sets))}
Wrap(l, set, r) == {l \o x \o r : x \in set}


\* "__NULL_<kind>__"
KindText(k) == CASE k = "NaN" -> <<78, 97, 78>> [] k = "BAD_DATA" -> <<66, 65, 68, 95, 68, 65, 84, 65>> [] k = "BAD_TYPE" -> <<66, 65, 68, 95, 84, 89, 80, 69>>
                 [] k = "OVERFLOW" -> <<79, 86, 69, 82, 70, 76, 79, 87>> [] k = "UNKNOWN_PROP" -> <<85, 78, 75, 78, 79, 87, 78, 95, 80, 82, 79, 80>>
                 [] k = "DIV_BY_ZERO" -> <<68, 73, 86, 95, 66, 89, 95, 90, 69, 82, 79>> [] k = "OUT_OF_RANGE" -> <<79, 85, 84, 95, 79, 70, 95, 82, 65, 78, 71, 69>>
NullOut(k) == IF k = "NULL" THEN <<78, 85, 76, 76>> ELSE <<95, 95, 78, 85, 76, 76, 95>> \o KindText(k) \o <<95, 95>>
DecOf(n) == BDec(Bg(n))
RECURSIVE Out(_)
PropOut(ps) == [i \in 1..Len(ps) |-> Wrap(ps[i].k \o <<58>>, Out(ps[i].v), <<>>)]          \* "k:v"
\* "Tag: name, k:v,k:v"
TagOut(t) == Wrap(<<84, 97, 103, 58, 32>> \o t.name \o <<44, 32>>, AnyOrder(PropOut(t.props)), <<>>)
Paren(set) == Wrap(<<40>>, set, <<41>>)
VertexOut(v) == LET id == Paren(Out(v.vid)) IN
  IF v.tags = <<>> THEN id ELSE {x[1] \o <<32>> \o Cat(SubSeq(x, 2, Len(x))) : x \in Cross(<<id>> \o [i \in 1..Len(v.tags) |-> TagOut(v.tags[i])])}
\* "[name(type)]", "@rank"
Kind(name, ty) == <<91>> \o name \o <<40>> \o DecOf(ty) \o <<41, 93>>
EdgeOut(e) == {x[1] \o <<45>> \o Kind(e.name, e.ty) \o <<45, 62>> \o x[2] \o <<64>> \o DecOf(e.rank) \o (IF e.props = <<>> THEN <<>> ELSE <<32>> \o x[3])
                 : x \in Cross(<<Paren(Out(e.src)), Paren(Out(e.dst)), AnyOrder(PropOut(e.props))>>)}
StepOut(s) == {<<45>> \o Kind(s.name, s.ty) \o <<45, 62>> \o x[1] \o <<64>> \o DecOf(s.rank) \o (IF s.props = <<>> THEN <<>> ELSE <<32>> \o x[2])
                 : x \in Cross(<<Paren(VertexOut(s.dst)), AnyOrder(PropOut(s.props))>>)}
PathOut(p) == {Cat([i \in 1..Len(x) |-> x[i] \o <<32>>]) : x \in Cross(<<Paren(VertexOut(p.src))>> \o [i \in 1..Len(p.steps) |-> StepOut(p.steps[i])])}
\* a line of cells, each followed by a bar
Cells(cs) == Cat([i \in 1..Len(cs) |-> cs[i] \o <<124>>]) \o <<10>>
RowOut(r) == {Cells(x) : x \in Cross([i \in 1..Len(r) |-> Out(r[i])])}
DataSetOut(d) == {Cells(d.cols) \o Cat(x) \o <<10>> : x \in Cross([i \in 1..Len(d.rows) |-> RowOut(d.rows[i])])}
Out(v) == CASE v.t = "EMPTY" -> {<<95, 95, 69, 77, 80, 84, 89, 95, 95>>} [] v.t = "NULL" -> {NullOut(v.k)}
            [] v.t \in {"BOOL", "INT", "DATE", "TIME", "DATETIME"} -> {TextOf(v)} [] v.t = "STRING" -> {<<34>> \o v.c \o <<34>>}
            [] v.t = "VERTEX" -> VertexOut(v) [] v.t = "EDGE" -> EdgeOut(v) [] v.t = "PATH" -> PathOut(v)
            [] v.t = "LIST" -> Wrap(<<91>>, InOrder([i \in 1..Len(v.v) |-> Out(v.v[i])]), <<93>>)
            [] v.t = "MAP" -> Wrap(<<123>>, AnyOrder(PropOut(v.v)), <<125>>)
            [] v.t = "SET" -> Wrap(<<123>>, AnyOrder([i \in 1..Len(v.v) |-> Out(v.v[i])]), <<125>>)
            [] v.t = "DATASET" -> DataSetOut(v)
\* ------ hosts
HostLt(a, b) == IF a.host = b.host THEN a.port < b.port ELSE LexInt(a.host, b.host, 1)
HostText(a) == <<34>> \o a.host \o <<34, 58>> \o DecOf(a.port)
=============================================================================
