----------------------------- MODULE ShapeTrace -----------------------------
(* Recorded operations on paths, data sets and the like; values are indices into the
   file VF_UNI. *)
EXTENDS Shape, TraceBase
Uni == ndJsonDeserialize(IOEnv.VF_UNI)
A == Uni[Ev.a]
B == Uni[Ev.b]
R == Uni[Ev.r]
\* what a method that can refuse leaves behind
Try(op, can, then) == Consume(op) /\ Ev.ok = can /\ Same(R, IF can THEN then ELSE A)
Cleared(v) == CASE v.t = "VERTEX" -> [v EXCEPT !.vid = Empty, !.tags = <<>>]
                [] v.t = "EDGE" -> [v EXCEPT !.src = Empty, !.dst = Empty, !.ty = 0, !.name = <<>>, !.rank = 0, !.props = <<>>]
                [] v.t = "PATH" -> [v EXCEPT !.src = [t |-> "VERTEX", vid |-> Empty, tags |-> <<>>], !.steps = <<>>]
                [] v.t \in {"LIST", "MAP", "SET"} -> [v EXCEPT !.v = <<>>]
                [] v.t = "DATASET" -> [v EXCEPT !.cols = <<>>, !.rows = <<>>]
                [] v.t = "DATE" -> [v EXCEPT !.y = 0, !.mo = 1, !.d = 1]
                [] v.t = "TIME" -> [v EXCEPT !.h = 0, !.mi = 0, !.s = 0, !.us = 0]
                [] v.t = "DATETIME" -> [v EXCEPT !.y = 0, !.mo = 1, !.d = 1, !.h = 0, !.mi = 0, !.s = 0, !.us = 0]
TInit == TraceStart
TNext == \/ Consume("preverse") /\ Same(R, PathReverse(A))
         \/ Try("pappend", CanAppend(A, B), PathAppend(A, B))
         \/ Consume("addstep") /\ Same(R, PathAppend(A, B))
         \/ Consume("dupv") /\ Ev.ok = DupVertices(A)
         \/ Consume("dupe") /\ Ev.ok = DupEdges(A)
         \/ Consume("ereverse") /\ Same(R, EdgeReverse(A))
         \/ Consume("eformat") /\ Same(R, EdgeFormat(A))
         \/ Consume("contains") /\ Ev.ok = Contains(A, B)
         \/ Consume("value") /\ Same(R, ValueOf(A, B.c))
         \/ Consume("size") /\ Ev.n = Len(A.v)
         \/ Consume("items") /\ Same(R, A) /\ Ev.ok = (A.v = <<>>)
         \/ Try("row", Fits(A, B.v), AddRow(A, B.v))
         \/ Try("stack", CanStack(A, B), Stack(A, B))
         \/ Try("join", CanJoin(A, B), Join(A, B))
         \/ Consume("column") /\ Same(R, [t |-> "LIST", v |-> Column(A, B.c)])
         \* read back through keys, rowValues and iteration
         \/ Consume("dump") /\ Same(R, A) /\ Ev.rows = Len(A.rows) /\ Ev.cols = Len(A.cols) /\ Ev.n = Len(A.rows)
         \/ Consume("text") /\ Ev.c \in Out(A) /\ Ev.ok
         \/ Consume("clear") /\ Same(R, Cleared(A))
         \* a new object is as one that was cleared
         \/ Consume("fresh") /\ Same(R, Cleared(A))
         \/ Consume("host") /\ Ev.eq = (Ev.x = Ev.y) /\ Ev.lt = HostLt(Ev.x, Ev.y) /\ Ev.ne = ~Ev.eq /\ Ev.c = HostText(Ev.x) /\ (Ev.eq => Ev.h)
=============================================================================
