------------------------------ MODULE ExprTrace ------------------------------
(* Recorded expressions.  VF_EXPR: the expressions, VF_CTX: the contexts, VF_WIRE: the bytes
   of true and of false. *)
EXTENDS Expr, TraceBase
Exprs == ndJsonDeserialize(IOEnv.VF_EXPR)
Ctxs == ndJsonDeserialize(IOEnv.VF_CTX)
TF == <<Exprs[1].w, Exprs[2].w>>       \* the constants true and false
X == Exprs[Ev.x]
\* logs agree, but for the order of the elements of sets
SameLog(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].n = b[i].n /\ SameV(a[i].v, b[i].v)
\* what comes of an expression, however it was come by
EvalIs(r) == IsOpen(r.v) \/ (SameV(Ev.r, r.v) /\ SameLog(Ev.e \o Ctxs[Ev.c].vars, r.e))
EvalOK == EvalIs(Eval(X, Ctxs[Ev.c], Ctxs[Ev.c].vars))
Encodable == Ev.can
ExprOK == /\ TextIs(Ev.text, Text(X)) /\ TextIs(Ev.raw, RawText(X))
          /\ Ev.ctext = Ev.text /\ Ev.craw = Ev.raw /\ Ev.ceq = Alike(X, X) /\ Ev.new
          /\ Ev.kind = X.k /\ Ev.ckind = X.k /\ Ev.visit = Class(X.k)
          /\ Ev.lg = (X.k \in Logical) /\ Ev.rl = (Class(X.k) = "Relational") /\ Ev.ar = (X.k \in Arith) /\ Ev.ct = (X.k \in {"List", "Set", "Map"})
          /\ Encodable => /\ Ev.enc = Bytes(X, TF) /\ Ev.cenc = Ev.enc /\ Ev.denc = Ev.enc
                          /\ Ev.dtext = Ev.text /\ Ev.draw = Ev.raw /\ Ev.deq = Alike(X, X) /\ Ev.dkind = X.k
TInit == TraceStart
TNext == \/ Consume("expr") /\ ExprOK
         \/ Consume("eval") /\ EvalOK
         \/ Consume("eq") /\ Ev.r = Alike(X, Exprs[Ev.y]) /\ Ev.ne = ~Ev.r
         \/ Consume("cast") /\ Ev.r = CanCast(Ev.from, Ev.to)
=============================================================================
