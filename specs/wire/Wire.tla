-------------------------------- MODULE Wire --------------------------------
(* What travels between peers.  An object is [s |-> its struct, f |-> its fields by
   name]; optional fields that are not set are absent, and a union has at most one
   field.  On the wire it is a tree of typed fields with numbers (or names), as the
   interface definition says; fields may come in any order, and unknown ones or
   ones of another type are passed over.
   Numbers are [s |-> sign, d |-> digits]; texts are sequences of bytes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
I8 == [k |-> "i8"]
I16 == [k |-> "i16"]
I32 == [k |-> "i32"]
I64 == [k |-> "i64"]
Bool == [k |-> "bool"]
Double == [k |-> "double"]
Bin == [k |-> "binary"]
St(s) == [k |-> "struct", of |-> s]
Li(t) == [k |-> "list", of |-> t]
SetOf(t) == [k |-> "set", of |-> t]
Mp(t, u) == [k |-> "map", key |-> t, of |-> u]
\* D: default, R: required, O: optional
D(i, n, t) == [id |-> i, name |-> n, type |-> t, req |-> "D"]
R(i, n, t) == [id |-> i, name |-> n, type |-> t, req |-> "R"]
O(i, n, t) == [id |-> i, name |-> n, type |-> t, req |-> "O"]
Props == Mp(Bin, St("Value"))
Schema ==
  [Date |-> <<D(1, "year", I16), D(2, "month", I8), D(3, "day", I8)>>,
   Time |-> <<D(1, "hour", I8), D(2, "minute", I8), D(3, "sec", I8), D(4, "microsec", I32)>>,
   DateTime |-> <<D(1, "year", I16), D(2, "month", I8), D(3, "day", I8), D(4, "hour", I8), D(5, "minute", I8), D(6, "sec", I8), D(7, "microsec", I32)>>,
   Value |-> <<D(1, "nVal", I32), D(2, "bVal", Bool), D(3, "iVal", I64), D(4, "fVal", Double), D(5, "sVal", Bin), D(6, "dVal", St("Date")),
               D(7, "tVal", St("Time")), D(8, "dtVal", St("DateTime")), D(9, "vVal", St("Vertex")), D(10, "eVal", St("Edge")), D(11, "pVal", St("Path")),
               D(12, "lVal", St("NList")), D(13, "mVal", St("NMap")), D(14, "uVal", St("NSet")), D(15, "gVal", St("DataSet"))>>,
   NList |-> <<D(1, "values", Li(St("Value")))>>,
   NMap |-> <<D(1, "kvs", Props)>>,
   NSet |-> <<D(1, "values", SetOf(St("Value")))>>,
   Row |-> <<D(1, "values", Li(St("Value")))>>,
   DataSet |-> <<D(1, "column_names", Li(Bin)), D(2, "rows", Li(St("Row")))>>,
   Tag |-> <<D(1, "name", Bin), D(2, "props", Props)>>,
   Vertex |-> <<D(1, "vid", St("Value")), D(2, "tags", Li(St("Tag")))>>,
   Edge |-> <<D(1, "src", St("Value")), D(2, "dst", St("Value")), D(3, "type", I32), D(4, "name", Bin), D(5, "ranking", I64), D(6, "props", Props)>>,
   Step |-> <<D(1, "dst", St("Vertex")), D(2, "type", I32), D(3, "name", Bin), D(4, "ranking", I64), D(5, "props", Props)>>,
   Path |-> <<D(1, "src", St("Vertex")), D(2, "steps", Li(St("Step")))>>,
   HostAddr |-> <<D(1, "host", Bin), D(2, "port", I32)>>,
   KeyValue |-> <<D(1, "key", Bin), D(2, "value", Bin)>>,
   ProfilingStats |-> <<R(1, "rows", I64), R(2, "exec_duration_in_us", I64), R(3, "total_duration_in_us", I64), O(4, "other_stats", Mp(Bin, Bin))>>,
   PlanNodeBranchInfo |-> <<R(1, "is_do_branch", Bool), R(2, "condition_node_id", I64)>>,
   Pair |-> <<R(1, "key", Bin), R(2, "value", Bin)>>,
   PlanNodeDescription |-> <<R(1, "name", Bin), R(2, "id", I64), R(3, "output_var", Bin), O(4, "description", Li(St("Pair"))), O(5, "profiles", Li(St("ProfilingStats"))),
                             O(6, "branch_info", St("PlanNodeBranchInfo")), O(7, "dependencies", Li(I64))>>,
   PlanDescription |-> <<R(1, "plan_node_descs", Li(St("PlanNodeDescription"))), R(2, "node_index_map", Mp(I64, I64)), R(3, "format", Bin), R(4, "optimize_time_in_us", I32)>>,
   ExecutionResponse |-> <<R(1, "error_code", I32), R(2, "latency_in_us", I32), O(3, "data", St("DataSet")), O(4, "space_name", Bin), O(5, "error_msg", Bin),
                           O(6, "plan_desc", St("PlanDescription")), O(7, "comment", Bin)>>,
   AuthResponse |-> <<R(1, "error_code", I32), O(2, "error_msg", Bin), O(3, "session_id", I64), O(4, "time_zone_offset_seconds", I32), O(5, "time_zone_name", Bin)>>]
Unions == {"Value"}
Ints == {"i8", "i16", "i32", "i64"}
Zero == [s |-> 0, d |-> <<>>]
One == [s |-> 1, d |-> <<1>>]
Range(q) == {q[i] : i \in 1..Len(q)}
\* the id of an edge type means something to one cluster only: all that is sent is the direction
Sent(s, n, x) == IF s \in {"Edge", "Step"} /\ n = "type" THEN [s |-> x.s, d |-> IF x.s = 0 THEN <<>> ELSE <<1>>] ELSE x
\* ------ writing
RECURSIVE Enc(_, _)
Fields(s, x) == SelectSeq(Schema[s], LAMBDA e : e.name \in DOMAIN x.f)
Enc(t, x) ==
  CASE t.k \in Ints -> [w |-> t.k, n |-> x]
    [] t.k \in {"bool", "double"} -> [w |-> t.k, v |-> x]
    [] t.k = "binary" -> [w |-> "binary", c |-> x]
    [] t.k = "struct" -> [w |-> "struct", f |-> [i \in 1..Len(Fields(t.of, x)) |->
                            LET e == Fields(t.of, x)[i] IN [id |-> e.id, name |-> e.name, v |-> Enc(e.type, Sent(t.of, e.name, x.f[e.name]))]]]
    [] t.k \in {"list", "set"} -> [w |-> t.k, v |-> [i \in 1..Len(x) |-> Enc(t.of, x[i])]]
    [] t.k = "map" -> [w |-> "map", v |-> [i \in 1..Len(x) |-> [k |-> Enc(t.key, x[i].k), v |-> Enc(t.of, x[i].v)]]]
\* a field of a recorded tree has a number, or a name, or both
SameField(a, b) == (a.id = 0 \/ a.id = b.id) /\ (a.name = "" \/ a.name = b.name)
RECURSIVE SameTree(_, _)
\* a recorded tree a is what b describes
SameTree(a, b) ==
  /\ a.w = b.w
  /\ CASE a.w \in Ints -> a.n = b.n
       [] a.w \in {"bool", "double"} -> a.v = b.v
       [] a.w = "binary" -> a.c = b.c
       [] a.w = "struct" -> Len(a.f) = Len(b.f) /\ \A j \in 1..Len(b.f) : \E i \in 1..Len(a.f) : SameField(a.f[i], b.f[j]) /\ SameTree(a.f[i].v, b.f[j].v)
       [] a.w = "list" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : SameTree(a.v[i], b.v[i])
       [] a.w = "set" -> Len(a.v) = Len(b.v) /\ \A j \in 1..Len(b.v) : \E i \in 1..Len(a.v) : SameTree(a.v[i], b.v[j])
       [] a.w = "map" -> Len(a.v) = Len(b.v) /\ \A j \in 1..Len(b.v) : \E i \in 1..Len(a.v) : SameTree(a.v[i].k, b.v[j].k) /\ SameTree(a.v[i].v, b.v[j].v)
\* ------ reading
\* what a new object holds where nothing was received
RECURSIVE New(_)
Start(s, e) ==
  CASE s \in {"Date", "DateTime"} /\ e.name \in {"month", "day"} -> One
    [] OTHER -> New(e.type)
New(t) == CASE t.k \in Ints -> Zero [] t.k = "bool" -> FALSE [] t.k \in {"binary", "list", "set", "map"} -> <<>>
            [] t.k = "struct" -> IF t.of \in Unions THEN [s |-> t.of, f |-> <<>>]
                                 ELSE LET q == SelectSeq(Schema[t.of], LAMBDA e : e.req = "D") IN
                                      [s |-> t.of, f |-> [n \in {e.name : e \in Range(q)} |-> LET e == CHOOSE x \in Range(q) : x.name = n IN Start(t.of, e)]]
\* the fields of the tree that mean something to struct s
Known(s, w) == {i \in 1..Len(w.f) : \E e \in Range(Schema[s]) : w.f[i].id = e.id /\ w.f[i].v.w = e.type.k}
Entry(s, f) == CHOOSE e \in Range(Schema[s]) : e.id = f.id
\* what cannot be read as a t: something required is missing, or a union holds two
RECURSIVE Bad(_, _)
Bad(t, w) ==
  CASE t.k = "struct" -> \/ t.of \in Unions /\ Len(w.f) > 1
                         \/ \E e \in Range(Schema[t.of]) : e.req = "R" /\ e.id \notin {w.f[i].id : i \in Known(t.of, w)}
                         \/ \E i \in Known(t.of, w) : Bad(Entry(t.of, w.f[i]).type, w.f[i].v)
    [] t.k \in {"list", "set"} -> \E i \in 1..Len(w.v) : Bad(t.of, w.v[i])
    [] t.k = "map" -> \E i \in 1..Len(w.v) : Bad(t.of, w.v[i].v)
    [] OTHER -> FALSE
RECURSIVE Dec(_, _)
Dec(t, w) ==
  CASE t.k \in Ints -> w.n
    [] t.k \in {"bool", "double"} -> w.v
    [] t.k = "binary" -> w.c
    [] t.k = "struct" -> LET kn == Known(t.of, w)
                             at(n) == {i \in kn : Entry(t.of, w.f[i]).name = n}
                             base == New(t).f
                             names == {Entry(t.of, w.f[i]).name : i \in kn}
                         IN [s |-> t.of, f |-> [n \in names \cup DOMAIN base |->
                               IF n \in names THEN LET f == w.f[CHOOSE i \in at(n) : TRUE] IN Dec(Entry(t.of, f).type, f.v) ELSE base[n]]]
    [] t.k \in {"list", "set"} -> [i \in 1..Len(w.v) |-> Dec(t.of, w.v[i])]
    [] t.k = "map" -> [i \in 1..Len(w.v) |-> [k |-> Dec(t.key, w.v[i].k), v |-> Dec(t.of, w.v[i].v)]]
\* ------ the same object: the entries of sets and maps have no order
RECURSIVE Alike(_, _, _)
Alike(t, a, b) ==
  CASE t.k = "struct" -> /\ DOMAIN a.f = DOMAIN b.f
                         /\ \A n \in DOMAIN a.f : Alike((CHOOSE e \in Range(Schema[t.of]) : e.name = n).type, a.f[n], b.f[n])
    [] t.k = "list" -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : Alike(t.of, a[i], b[i])
    [] t.k = "set" -> Len(a) = Len(b) /\ \A i \in 1..Len(b) : \E j \in 1..Len(a) : Alike(t.of, a[j], b[i])
    [] t.k = "map" -> Len(a) = Len(b) /\ \A i \in 1..Len(b) : \E j \in 1..Len(a) : a[j].k = b[i].k /\ Alike(t.of, a[j].v, b[i].v)
    [] OTHER -> a = b
\* what the receiver has when everything arrives: all of it, with the direction for the edge type
RECURSIVE Arrives(_, _)
Arrives(t, x) ==
  CASE t.k = "struct" -> [s |-> t.of, f |-> [n \in DOMAIN x.f |-> Arrives((CHOOSE e \in Range(Schema[t.of]) : e.name = n).type, Sent(t.of, n, x.f[n]))]]
    [] t.k \in {"list", "set"} -> [i \in 1..Len(x) |-> Arrives(t.of, x[i])]
    [] t.k = "map" -> [i \in 1..Len(x) |-> [k |-> x[i].k, v |-> Arrives(t.of, x[i].v)]]
    [] OTHER -> x
\* reading undoes writing
Lossless(t, x) == ~Bad(t, Enc(t, x)) /\ Alike(t, Dec(t, Enc(t, x)), Arrives(t, x))
=============================================================================
