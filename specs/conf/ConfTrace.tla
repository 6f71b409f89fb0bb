----------------------------- MODULE ConfTrace ------------------------------
EXTENDS Conf, TraceBase
VARIABLE cs      \* the configurations in use
TInit == TraceStart /\ cs = [i \in 1..3 |-> Empty]
C == cs[Ev.c]
Same == cs' = cs
Took(tree) == LET r == Read(C, tree) IN (IF Ev.ok THEN "yes" ELSE "no") \in r.may /\ (tree = Unjudged => ~Ev.ok) /\ cs' = [cs EXCEPT ![Ev.c] = r.new]
Wanted == C.m[Ev.k]
Found == IF Is(C, Ev.k, Ev.kind) THEN Ev.ok /\ (CASE Ev.kind = "bool" -> Ev.v = Wanted.b [] OTHER -> Ev.v = Wanted.s) ELSE ~Ev.ok /\ Ev.kept
SeqSet(s) == {s[i] : i \in 1..Len(s)}
TNext ==
  \/ Consume("text") /\ Took(Parse(Ev.text))
  \/ Consume("file") /\ (CASE Ev.mode = "file" -> Took(IF Ev.text = <<>> THEN Bad ELSE Parse(Stripped(Ev.text))) [] OTHER -> ~Ev.ok /\ Same)
  \/ Consume("fetch") /\ Found /\ Same
  \/ Consume("sub") /\ Ev.ok = Is(C, Ev.k, "sub") /\ cs' = [cs EXCEPT ![Ev.to] = IF Ev.ok THEN Wanted ELSE @]
  \/ Consume("array") /\ (Ev.ok => Ev.before) /\ ArrayIs(C, Ev.k, Ev.kind, Ev.ok, Ev.v) /\ Same
  \/ Consume("upsert") /\ Ev.ok = MayUpsert(C, Ev.k) /\ cs' = [cs EXCEPT ![Ev.c] = IF Ev.ok THEN Upserted(C, Ev.k, Ev.s) ELSE @]
  \/ Consume("dump") /\ Parse(Ev.v) = C /\ Parse(Ev.pretty) = C /\ Same
  \/ Consume("keys") /\ Ev.ok /\ Len(Ev.v) = Cardinality(DOMAIN C.m) /\ SeqSet(Ev.v) = DOMAIN C.m /\ Same
  \/ Consume("items") /\ Ev.ok /\ Len(Ev.v) = Cardinality(DOMAIN C.m) /\ {x.k : x \in SeqSet(Ev.v)} = DOMAIN C.m /\ (\A x \in SeqSet(Ev.v) : Parse(x.v) = C.m[x.k]) /\ Same
  \/ Consume("stop") /\ LET n == Cardinality(DOMAIN C.m) IN Ev.ok = (Ev.at > n) /\ Ev.seen = (IF Ev.ok THEN n ELSE Ev.at) /\ Same
  \/ Consume("fresh") /\ cs' = [cs EXCEPT ![Ev.c] = Empty]
=============================================================================
