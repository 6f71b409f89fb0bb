------------------------------ MODULE Settings ------------------------------
(* Settings (flags) of a process that the meta service keeps.  The process declares its mutable flags once; from then on,
   whenever it takes what the meta service knows, the settings listed there take effect.
   A flag: [ty, v] with v = [t |-> "text", s] (its text, bytes) or [t |-> "map", m] (set of <<key, text>>: a JSON object
   reading as m, however it is written).  A value: [t |-> "int" | "float" | "bool" | "str", s], or [t |-> "map", m] with
   m a set of [k, t, s]. *)
EXTENDS JsonText, FiniteSets
VARIABLES flags,      \* name -> flag
          declared,   \* what is to be registered: set of [n, v]
          reg,        \* registered
          seen,       \* name -> the value last taken from the meta service
          spaces,     \* the spaces known
          told,       \* the latest change the meta service told of
          caught,     \* the change this process has caught up with
          ph,         \* "idle", "beat", "data", "reg", "reged", "list"
          load,       \* the load under way: [bad, got, always]
          owed        \* what the listener is still to hear: set of [n, s, o]
sv == <<flags, declared, reg, seen, spaces, told, caught, ph, load, owed>>
Defaults == {"max_edge_returned_per_vertex", "minloglevel", "v", "heartbeat_interval_secs", "meta_client_retry_times", "slow_op_threshhold_ms", "wal_ttl", "clean_wal_interval_secs", "custom_filter_interval_secs", "accept_partial_success"}
DefaultMaps == {"rocksdb_db_options", "rocksdb_column_family_options", "rocksdb_block_based_table_options"}
NoMap == {<<>>}     \* (no set of pairs)
TextOf(tree) == tree.s
MapOf(text) == LET t == Parse(text) IN IF t.t # "obj" THEN NoMap ELSE {<<k, TextOf(t.m[k])>> : k \in DOMAIN t.m}
CurMap(v) == IF v.t = "map" THEN v.m ELSE MapOf(v.s)
Bare(m) == {<<x.k, x.s>> : x \in m}
AllStr(m) == \A x \in m : x.t = "str"
IntTypes == {"int32", "int64", "uint32", "uint64"}
\* ---- what is declared: mutable and nested names of the mode file, on top of the standard ones; nested wins
Typed(f, nested) ==
  IF nested THEN [t |-> "map", m |-> {[k |-> p[1], t |-> "str", s |-> p[2]] : p \in CurMap(f.v)}]
  ELSE [t |-> CASE f.ty \in IntTypes -> "int" [] f.ty = "double" -> "float" [] f.ty = "bool" -> "bool" [] OTHER -> "str", s |-> f.v.s]
ToDeclare(fs, mode) ==
  LET mutable == Defaults \cup mode.mutable   maps == (DefaultMaps \ mode.mutable) \cup mode.nested
      names == {n \in DOMAIN fs : (n \in mutable \cup maps) /\ (n \in maps => CurMap(fs[n].v) # NoMap)}
  IN {[n |-> n, v |-> Typed(fs[n], n \in maps)] : n \in names}
\* ---- a value taken by a flag
Digit09(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in Digits
Fits(ty, s) == LET neg == s # <<>> /\ s[1] = 45  d == IF neg THEN Tail(s) ELSE s
               IN Digit09(d) /\ (neg => ty \in {"int32", "int64"}) /\ Len(d) <= (IF ty \in {"int32", "uint32"} THEN 9 ELSE 18)
Takes(ty, val) == CASE val.t = "map" -> ty = "string"
                    [] ty = "string" -> TRUE
                    [] ty \in IntTypes -> Fits(ty, val.s)
                    [] ty = "bool" -> val.t = "bool"
                    [] OTHER -> val.t \in {"float", "int"}
Has(f, val) == IF val.t = "map" THEN AllStr(val.m) /\ CurMap(f.v) = Bare(val.m) ELSE f.v = [t |-> "text", s |-> val.s]
Became(f, val) == [f EXCEPT !.v = IF val.t = "map" THEN [t |-> "map", m |-> Bare(val.m)] ELSE [t |-> "text", s |-> val.s]]
\* items: set of [n, mode, v], one for a name
Fresh(items) == {x \in items : IF x.n \in DOMAIN seen THEN seen[x.n] # x.v ELSE TRUE}
Effective(items) == {x \in Fresh(items) : x.mode = "MUTABLE" /\ x.n \in DOMAIN flags}
Changes(items) == {x \in Effective(items) : ~Has(flags[x.n], x.v)}
ItemFor(xs, n) == CHOOSE x \in xs : x.n = n
Names(xs) == {x.n : x \in xs}
Apply(items, listening) ==
  LET ch == Changes(items)  fr == Fresh(items) IN
  /\ flags' = [n \in DOMAIN flags |-> IF n \in Names(ch) /\ Takes(flags[n].ty, ItemFor(ch, n).v) THEN Became(flags[n], ItemFor(ch, n).v) ELSE flags[n]]
  /\ seen' = [n \in DOMAIN seen \cup Names(fr) |-> IF n \in Names(fr) THEN ItemFor(fr, n).v ELSE seen[n]]
  /\ owed' = IF listening THEN {[n |-> x.n, s |-> s, o |-> Bare(x.v.m)] : x \in {y \in ch : y.v.t = "map"}, s \in spaces} ELSE {}
\* ---- steps
Quiet == ph = "idle" /\ owed = {}
SInit == flags = << >> /\ declared = {} /\ reg = FALSE /\ seen = << >> /\ spaces = {} /\ told = 0 /\ caught = 0 /\ ph = "idle" /\ load = [bad |-> FALSE, got |-> {}] /\ owed = {}
Declare(mode, known) == Quiet /\ declared' = (IF known THEN ToDeclare(flags, mode) ELSE {}) /\ UNCHANGED <<flags, reg, seen, spaces, told, caught, ph, load, owed>>
Local(n, f) == flags' = [flags EXCEPT ![n] = f] /\ UNCHANGED <<declared, reg, seen, spaces, told, caught, ph, load, owed>>
Beat == Quiet /\ ph' = "beat" /\ UNCHANGED <<flags, declared, reg, seen, spaces, told, caught, load, owed>>
\* always: the beat was asked for, it does not merely keep up
Beaten(ok, time, always) ==
  /\ ph = "beat" /\ told' = (IF ok THEN time ELSE told)
  /\ ph' = (IF ok /\ (always \/ caught < time) THEN "data" ELSE "idle")
  /\ load' = [bad |-> FALSE, got |-> {}]
  /\ UNCHANGED <<flags, declared, reg, seen, spaces, caught, owed>>
Data(ok, isSpaces, ids) ==
  load' = (IF ph = "data" THEN [bad |-> load.bad \/ ~ok, got |-> IF isSpaces /\ ok THEN ids ELSE load.got] ELSE load)
  /\ UNCHANGED <<flags, declared, reg, seen, spaces, told, caught, ph, owed>>
Known == IF load.bad THEN spaces ELSE load.got
Registers == ph = "data" /\ ~reg /\ ph' = "reg" /\ spaces' = Known /\ UNCHANGED <<flags, declared, reg, seen, told, caught, load, owed>>
Registered(ok) == ph = "reg" /\ reg' = ok /\ ph' = (IF ok THEN "reged" ELSE "idle") /\ UNCHANGED <<flags, declared, seen, spaces, told, caught, load, owed>>
Lists == reg /\ ph \in {"data", "reged"} /\ ph' = "list" /\ spaces' = Known /\ UNCHANGED <<flags, declared, reg, seen, told, caught, load, owed>>
Listed(ok, items, listening) ==
  /\ ph = "list" /\ ph' = "idle" /\ caught' = (IF ok /\ ~load.bad THEN told ELSE caught)
  /\ IF ok THEN Apply(items, listening) ELSE UNCHANGED <<flags, seen, owed>>
  /\ UNCHANGED <<declared, reg, spaces, told, load>>
Hears(s, o) == \E x \in owed : x.s = s /\ x.o = o /\ owed' = owed \ {x} /\ UNCHANGED <<flags, declared, reg, seen, spaces, told, caught, ph, load>>
=============================================================================
