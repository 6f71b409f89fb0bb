-------------------------------- MODULE Conf --------------------------------
(* A configuration is a JSON object; items are fetched by name as the type they have. *)
EXTENDS JsonText
Empty == [t |-> "obj", m |-> <<>>]
\* a text read: what it holds then, and whether it was accepted ("open": either)
Read(old, tree) == IF tree = Unjudged THEN [may |-> {"yes", "no"}, new |-> old] ELSE IF tree.t = "obj" THEN [may |-> {"yes"}, new |-> tree] ELSE [may |-> {"no"}, new |-> old]
Has(c, k) == k \in DOMAIN c.m
TypeNamed == ("int" :> "int") @@ ("double" :> "double") @@ ("bool" :> "bool") @@ ("str" :> "str") @@ ("sub" :> "obj")
Is(c, k, kind) == IF Has(c, k) THEN c.m[k].t = TypeNamed[kind] ELSE FALSE
\* ---- entries of arrays are converted
IsInt(s) == LET d == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s IN d # <<>> /\ \A i \in 1..Len(d) : d[i] \in Digits
PlainInt(s) == IsInt(s) /\ (LET d == IF s[1] = 45 THEN Tail(s) ELSE s IN (d[1] # 48 \/ Len(s) = 1) /\ Len(d) <= 15)
HasPoint(s) == \E i \in 1..Len(s) : s[i] = 46
IsReal(s) == LET d == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s IN
             \E p \in 2..Len(d) - 1 : d[p] = 46 /\ \A i \in 1..Len(d) : i = p \/ d[i] \in Digits
WordTrue == <<116, 114, 117, 101>>
WordFalse == <<102, 97, 108, 115, 101>>
Number01(b) == IF b THEN <<49>> ELSE <<48>>
None == [k |-> "none"]
Left == [k |-> "left"]       \* left open
Got(x) == [k |-> "got", x |-> x]
\* numbers whose decimal text is judged: short, not minus zero, and not so small that it is written with an exponent
Short(s) == Len(s) <= 12 /\ s # <<45, 48>> /\ LET w == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s IN ~(Len(w) >= 5 /\ \A i \in {1, 3, 4, 5} : w[i] = 48)
AsInt(v) ==
  CASE v.t = "int" -> Got(v.s)
    [] v.t = "bool" -> Got(Number01(v.b))
    [] v.t = "double" -> IF ~Short(v.s) THEN Left ELSE IF HasPoint(v.s) THEN None ELSE Got(v.s)
    [] v.t = "str" -> IF PlainInt(v.s) THEN Got(v.s) ELSE IF IsInt(v.s) THEN Left ELSE None
    [] OTHER -> None
AsDouble(v) ==
  CASE v.t = "int" -> IF PlainInt(v.s) THEN Got(v.s) ELSE Left
    [] v.t = "bool" -> Got(Number01(v.b))
    [] v.t = "double" -> IF Short(v.s) THEN Got(v.s) ELSE Left
    [] v.t = "str" -> IF PlainInt(v.s) THEN Got(v.s) ELSE IF IsReal(v.s) \/ IsInt(v.s) THEN Left ELSE IF v.s = <<>> \/ v.s[1] \in 103..104 THEN None ELSE Left
    [] OTHER -> None
AsBool(v) ==
  CASE v.t = "int" -> Got(v.s # <<48>>)
    [] v.t = "bool" -> Got(v.b)
    [] v.t = "double" -> IF Short(v.s) THEN Got(v.s # <<48>>) ELSE Left
    [] v.t = "str" -> IF v.s \in {WordTrue, <<49>>} THEN Got(TRUE) ELSE IF v.s \in {WordFalse, <<48>>} THEN Got(FALSE) ELSE IF v.s = <<>> \/ v.s[1] \in 103..104 THEN None ELSE Left
    [] OTHER -> None
AsString(v) ==
  CASE v.t = "int" -> Got(v.s)
    [] v.t = "bool" -> Got(IF v.b THEN WordTrue ELSE WordFalse)
    [] v.t = "double" -> IF HasPoint(v.s) /\ Len(v.s) <= 8 THEN Got(v.s) ELSE Left
    [] v.t = "str" -> Got(v.s)
    [] OTHER -> None
Conv(kind, v) == CASE kind = "int" -> AsInt(v) [] kind = "double" -> AsDouble(v) [] kind = "bool" -> AsBool(v) [] OTHER -> AsString(v)
\* what fetching an array gives: ok, and then the converted entries
ArrayIs(c, k, kind, ok, xs) ==
  IF ~Has(c, k) THEN ~ok
  ELSE IF c.m[k].t # "arr" THEN ~ok
  ELSE LET vs == [i \in 1..Len(c.m[k].a) |-> Conv(kind, c.m[k].a[i])] IN
       IF \E i \in 1..Len(vs) : vs[i] = None THEN ~ok
       ELSE IF ok THEN Len(xs) = Len(vs) /\ \A i \in 1..Len(vs) : vs[i] = Left \/ vs[i] = Got(xs[i])
       ELSE \E i \in 1..Len(vs) : vs[i] = Left
MayUpsert(c, k) == IF Has(c, k) THEN c.m[k].t = "str" ELSE TRUE
Upserted(c, k, s) == [c EXCEPT !.m = Put(c.m, k, [t |-> "str", s |-> s])]
=============================================================================
