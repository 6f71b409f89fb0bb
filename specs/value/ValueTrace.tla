----------------------------- MODULE ValueTrace -----------------------------
(* Recorded results of the operators; values are indices into the file VF_UNI. *)
EXTENDS Order, TraceBase
Uni == ndJsonDeserialize(IOEnv.VF_UNI)
A == Uni[Ev.a]
B == Uni[Ev.b]
R == Uni[Ev.r]
Arith(op) == Consume(op)
Bin(op, ok) == Consume(op) /\ (IF Missing(A, B) THEN Same(R, MissingResult(A, B)) ELSE ok)
TInit == TraceStart
TNext == \/ Bin("+", AddOK(A, B, R))
         \/ Bin("-", SubOK(A, B, R))
         \/ Bin("*", MulOK(A, B, R))
         \/ Bin("/", DivOK(A, B, R))
         \/ Bin("%", ModOK(A, B, R, Ev.q))
         \/ Bin("&", BitOK("&", A, B, R))
         \/ Bin("|", BitOK("|", A, B, R))
         \/ Bin("^", BitOK("^", A, B, R))
         \/ Bin("&&", LogicOK("&&", A, B, R))
         \/ Bin("||", LogicOK("||", A, B, R))
         \/ Consume("neg") /\ NegOK(A, R)
         \/ Consume("not") /\ NotOK(A, R)
         \/ Consume("toBool") /\ ToBoolOK(A, R)
         \/ Consume("toFloat") /\ ToFloatOK(A, R)
         \/ Consume("toInt") /\ ToIntOK(A, R)
         \/ Consume("toIntP") /\ ToIntOK(A, R) /\ (Uni[Ev.d].t = "FLOAT" /\ ReadNum(A.c).ok /\ ReadNum(A.c).pt => ToIntOfPointOK(Uni[Ev.d], R))
         \/ Consume("cmp") /\ Ev.lt = Lt(A, B) /\ Ev.eq = Eq(A, B) /\ Ev.ne = ~Ev.eq
                           /\ Ev.gt = Lt(B, A) /\ Ev.le = ~Ev.gt /\ Ev.ge = ~Ev.lt
         \/ Consume("cmp3") /\ Same(Uni[Ev.less], Less(A, B)) /\ Same(Uni[Ev.equal], Equal3(A, B))
         \* equal values have equal hashes; the pointer versions look at the values
         \/ Consume("hash") /\ (Eq(A, B) => Ev.h) /\ Ev.peq = Eq(A, B) /\ Ev.ph
=============================================================================
