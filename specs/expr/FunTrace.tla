------------------------------ MODULE FunTrace ------------------------------
(* Recorded calls of functions.  VF_UNI: the values, VF_TZ: nothing else is needed. *)
EXTENDS Agg, TraceBase
Uni == ndJsonDeserialize(IOEnv.VF_UNI)
Args == [i \in 1..Len(Ev.a) |-> Uni[Ev.a[i]]]
W == Lower(Ev.f)
F == Named(W)
\* functions that take what has no one type have no signature
Untyped == {"id", "src", "dst", "udf_is_in", "near", "cos_similarity"}
Res == Uni[Ev.r]
\* the type that is announced, if any, is the type that comes
Announced == IF F.n \in Untyped THEN TRUE
          ELSE IF \E i \in 1..Len(Args) : IsNull(Args[i]) \/ IsEmpty(Args[i]) THEN TRUE
          ELSE IF Ev.rt = "ERROR" THEN IsNull(Res) \/ IsEmpty(Res) ELSE Ev.rt = "EMPTY" \/ IsNull(Res) \/ Res.t = Ev.rt
\* what strcasecmp announces is asked for on its own
TypeOK == F.n = "strcasecmp" \/ Announced
CallIs == IF ~Known(W) \/ ~Takes(F, Len(Args)) THEN ~Ev.ok /\ ~Ev.found /\ ~Ev.pok
          ELSE /\ Ev.ok /\ Ev.found /\ Ev.pok /\ Ev.pure = F.pure
               /\ CallOK(F.n, Args, Ev.tz, Res, SecsOf(Ev.d0, Ev.s0), SecsOf(Ev.d1, Ev.s1))
               /\ (F.pure => Ev.again) /\ Ev.kept
               /\ TypeOK
TInit == TraceStart
TNext == \/ Consume("call") /\ CallIs
         \/ Consume("announced") /\ Announced
         \/ Consume("agg") /\ AggIs(Ev.f, Ev.distinct, Args, Ev.ok, IF Ev.ok THEN Uni[Ev.r].v ELSE <<>>)
=============================================================================
