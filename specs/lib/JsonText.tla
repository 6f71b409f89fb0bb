------------------------------ MODULE JsonText ------------------------------
(* JSON read from bytes.  A tree: [t |-> "null"], [t |-> "bool", b], [t |-> "int", s], [t |-> "double", s] (s: canonical
   digits), [t |-> "str", s], [t |-> "arr", a], [t |-> "obj", m] with m a function from names to trees.
   Bad: no tree.  Unjudged: a text this module does not judge. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bad == [t |-> "bad"]
Unjudged == [t |-> "open"]
White == {9, 10, 13, 32}
Digits == 48..57
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE -1
RECURSIVE Skip(_, _)
Skip(s, i) == IF At(s, i) \in White THEN Skip(s, i + 1) ELSE i
RECURSIVE SkipDigits(_, _)
SkipDigits(s, i) == IF At(s, i) \in Digits THEN SkipDigits(s, i + 1) ELSE i
No(i) == [v |-> Bad, i |-> i]
\* ---- numbers: an optional minus, digits without a leading zero, perhaps a point and digits. Exponents are left open
RECURSIVE NoZeros(_)
NoZeros(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN NoZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
Canon(whole, frac) == LET f == NoZeros(frac) IN IF f = <<>> THEN whole ELSE whole \o <<46>> \o f
Number(s, i) ==
  LET d0 == IF At(s, i) = 45 THEN i + 1 ELSE i
      d1 == SkipDigits(s, d0)
      f1 == IF At(s, d1) = 46 THEN SkipDigits(s, d1 + 1) ELSE d1
  IN IF d1 = d0 \/ (At(s, d0) = 48 /\ d1 > d0 + 1) THEN No(i)
     ELSE IF At(s, d1) = 46 /\ f1 = d1 + 1 THEN No(i)
     ELSE IF At(s, f1) \in {69, 101} THEN [v |-> Unjudged, i |-> f1]
     ELSE IF f1 = d1 THEN [v |-> [t |-> "int", s |-> SubSeq(s, i, d1 - 1)], i |-> d1]
     ELSE [v |-> [t |-> "double", s |-> Canon(SubSeq(s, i, d1 - 1), SubSeq(s, d1 + 1, f1 - 1))], i |-> f1]
\* ---- strings
Escapes == (34 :> 34) @@ (92 :> 92) @@ (47 :> 47) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9)
Hex(c) == IF c \in Digits THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Code(s, i) == IF \A k \in 0..3 : Hex(At(s, i + k)) >= 0 THEN ((Hex(s[i]) * 16 + Hex(s[i + 1])) * 16 + Hex(s[i + 2])) * 16 + Hex(s[i + 3]) ELSE -1
Utf8(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>> ELSE <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
\* i: just after the opening quote
RECURSIVE Str(_, _, _)
Str(s, i, acc) ==
  LET c == At(s, i) IN
  IF c = 34 THEN [v |-> [t |-> "str", s |-> acc], i |-> i + 1]
  ELSE IF c < 32 THEN No(i)      \* ended, or a control character
  ELSE IF c # 92 THEN Str(s, i + 1, Append(acc, c))
  ELSE LET e == At(s, i + 1) IN
       IF e \in DOMAIN Escapes THEN Str(s, i + 2, Append(acc, Escapes[e]))
       ELSE IF e # 117 \/ Code(s, i + 2) < 0 THEN No(i)
       ELSE IF Code(s, i + 2) \in 55296..57343 \/ Code(s, i + 2) = 0 THEN [v |-> Unjudged, i |-> i]
       ELSE Str(s, i + 6, acc \o Utf8(Code(s, i + 2)))
\* ---- values
IsWord(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Stops(r) == r.v = Bad \/ r.v = Unjudged
RECURSIVE Val(_, _), Items(_, _, _), Pairs(_, _, _)
Val(s, j) ==
  LET i == Skip(s, j)  c == At(s, i) IN
  CASE c = 123 -> IF At(s, Skip(s, i + 1)) = 125 THEN [v |-> [t |-> "obj", m |-> <<>>], i |-> Skip(s, i + 1) + 1] ELSE Pairs(s, i + 1, <<>>)
    [] c = 91 -> IF At(s, Skip(s, i + 1)) = 93 THEN [v |-> [t |-> "arr", a |-> <<>>], i |-> Skip(s, i + 1) + 1] ELSE Items(s, i + 1, <<>>)
    [] c = 34 -> Str(s, i + 1, <<>>)
    [] c = 45 \/ c \in Digits -> Number(s, i)
    [] IsWord(s, i, <<116, 114, 117, 101>>) -> [v |-> [t |-> "bool", b |-> TRUE], i |-> i + 4]
    [] IsWord(s, i, <<102, 97, 108, 115, 101>>) -> [v |-> [t |-> "bool", b |-> FALSE], i |-> i + 5]
    [] IsWord(s, i, <<110, 117, 108, 108>>) -> [v |-> [t |-> "null"], i |-> i + 4]
    [] OTHER -> No(i)
Items(s, i, acc) ==
  LET r == Val(s, i) IN
  IF Stops(r) THEN r
  ELSE LET k == Skip(s, r.i)  c == At(s, k) IN
       IF c = 93 THEN [v |-> [t |-> "arr", a |-> Append(acc, r.v)], i |-> k + 1]
       ELSE IF c = 44 THEN Items(s, k + 1, Append(acc, r.v)) ELSE No(k)
Pairs(s, i, m) ==
  LET k == Skip(s, i) IN
  IF At(s, k) # 34 THEN No(k)
  ELSE LET n == Str(s, k + 1, <<>>) IN
       IF Stops(n) THEN n
       ELSE LET c == Skip(s, n.i) IN
            IF At(s, c) # 58 THEN No(c)
            ELSE LET r == Val(s, c + 1) IN
                 IF Stops(r) THEN r
                 ELSE LET e == Skip(s, r.i) IN
                      IF At(s, e) = 125 THEN [v |-> [t |-> "obj", m |-> Put(m, n.v.s, r.v)], i |-> e + 1]
                      ELSE IF At(s, e) = 44 THEN Pairs(s, e + 1, Put(m, n.v.s, r.v)) ELSE No(e)
Parse(s) == LET r == Val(s, 1) IN IF Stops(r) THEN r.v ELSE IF Skip(s, r.i) = Len(s) + 1 THEN r.v ELSE Bad
\* ---- comments: from // or # to the end of the line, but not within a string
RECURSIVE Strip(_, _, _, _)
\* where: "code", "str", "esc" (after a backslash in a string), "comment"
Strip(s, i, where, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET c == s[i] IN
  CASE where = "comment" -> IF c \in {10, 13} THEN Strip(s, i + 1, "code", Append(acc, c)) ELSE Strip(s, i + 1, where, acc)
    [] where = "esc" -> Strip(s, i + 1, "str", Append(acc, c))
    [] where = "str" -> Strip(s, i + 1, IF c = 92 THEN "esc" ELSE IF c = 34 THEN "code" ELSE "str", Append(acc, c))
    [] OTHER -> IF c = 35 \/ (c = 47 /\ At(s, i + 1) = 47) THEN Strip(s, i + 1, "comment", acc)
                ELSE Strip(s, i + 1, IF c = 34 THEN "str" ELSE "code", Append(acc, c))
Stripped(s) == Strip(s, 1, "code", <<>>)
=============================================================================
