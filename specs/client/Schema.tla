------------------------------- MODULE Schema -------------------------------
(* A schema as the rows of storage are laid out by it. *)
EXTENDS Integers, Sequences
Width(ty, len) == CASE ty \in {"BOOL", "INT8"} -> 1 [] ty = "INT16" -> 2 [] ty \in {"INT32", "FLOAT"} -> 4
                    [] ty \in {"INT64", "VID", "DOUBLE", "STRING", "TIMESTAMP"} -> 8
                    [] ty = "FIXED_STRING" -> len [] ty = "DATE" -> 4 [] ty = "TIME" -> 7 [] ty = "DATETIME" -> 11
RECURSIVE Width_(_, _)
Width_(cols, k) == IF k = 0 THEN 0 ELSE Width(cols[k].type, cols[k].len) + Width_(cols, k - 1)
RECURSIVE Nulls(_, _)
Nulls(cols, k) == IF k = 0 THEN 0 ELSE (IF cols[k].null THEN 1 ELSE 0) + Nulls(cols, k - 1)
\* of a name used twice, the first column
Place(cols, n) == IF \E k \in 1..Len(cols) : cols[k].name = n THEN (CHOOSE k \in 1..Len(cols) : cols[k].name = n /\ \A j \in 1..k - 1 : cols[j].name # n) - 1 ELSE -1
Ttl(p) == IF ~p.has THEN [ok |-> FALSE, col |-> "", dur |-> 0] ELSE IF p.col = "" \/ p.dur <= 0 THEN [ok |-> FALSE, col |-> "", dur |-> 0] ELSE [ok |-> TRUE, col |-> p.col, dur |-> p.dur]
\* s: ver, cols (name, type, len, null, def), prop (its text; has, col, dur)
Laid(s) == [ver |-> s.ver, n |-> Len(s.cols), nullable |-> Nulls(s.cols, Len(s.cols)), size |-> Width_(s.cols, Len(s.cols)), ttl |-> Ttl(s.prop), prop |-> s.prop.t,
            no |-> TRUE,
            fields |-> [k \in 1..Len(s.cols) |-> LET c == s.cols[k] IN
              [name |-> c.name, type |-> c.type, null |-> c.null, size |-> Width(c.type, c.len), off |-> Width_(s.cols, k - 1), pos |-> IF c.null THEN Nulls(s.cols, k - 1) ELSE 0,
               def |-> c.def, byIndex |-> TRUE, byName |-> TRUE, index |-> Place(s.cols, c.name), nameAt |-> c.name, typeAt |-> c.type, typeOf |-> s.cols[Place(s.cols, c.name) + 1].type]]]
\* what it holds, whatever the layout
Held(s) == [ver |-> s.ver, prop |-> s.prop.t, fields |-> [k \in 1..Len(s.cols) |-> LET c == s.cols[k] IN [name |-> c.name, type |-> c.type, null |-> c.null, def |-> c.def]]]
=============================================================================
