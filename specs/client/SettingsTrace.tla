--------------------------- MODULE SettingsTrace ---------------------------
EXTENDS Settings, TraceBase
VARIABLES set,    \* [module, listener, mode: the mode file's mutable and nested names]
          who     \* who asked: "", "wait", "ready"
tv == <<sv, set, who>>
Own == UNCHANGED <<set, who>>
SeqSet(s) == {s[i] : i \in 1..Len(s)}
Value(x) == IF x.t = "map" THEN [t |-> "map", m |-> SeqSet(x.m)] ELSE x
Entries(s) == {[n |-> x.n, mode |-> x.mode, v |-> Value(x.v)] : x \in SeqSet(s)}
Pairwise(s) == {<<p[1], p[2]>> : p \in SeqSet(s)}
TInit == TraceStart /\ SInit /\ set = [module |-> "", listener |-> FALSE, mode |-> [mutable |-> {}, nested |-> {}]] /\ who = ""
FlagIs(x) == LET f == flags[x.n] IN f.ty = x.ty /\ (IF f.v.t = "map" THEN MapOf(x.s) = f.v.m ELSE x.s = f.v.s)
Declares == IF set.module = "UNKNOWN" THEN {} ELSE {[n |-> d.n, mode |-> "MUTABLE", v |-> d.v] : d \in declared}
TNext ==
  \/ /\ Consume("new") /\ set' = [module |-> Ev.module, listener |-> Ev.listener, mode |-> [mutable |-> SeqSet(Ev.mutable), nested |-> SeqSet(Ev.nested)]]
     /\ flags' = [n \in {Ev.flags[i].n : i \in 1..Len(Ev.flags)} |-> LET x == CHOOSE y \in SeqSet(Ev.flags) : y.n = n IN [ty |-> x.ty, v |-> [t |-> "text", s |-> x.s]]]
     /\ UNCHANGED <<declared, reg, seen, spaces, told, caught, ph, load, owed, who>>
  \/ Consume("setflag") /\ Local(Ev.n, [flags[Ev.n] EXCEPT !.v = [t |-> "text", s |-> Ev.v]]) /\ Own
  \/ Consume("do") /\ Quiet /\ who = "" /\ who' = Ev.who /\ set' = set /\ (IF Ev.who = "wait" THEN Declare(set.mode, set.module # "UNKNOWN") ELSE UNCHANGED sv)
  \/ Consume("beat") /\ Beat /\ Own
  \/ Consume("beaten") /\ Beaten(Ev.ok, Ev.time, who # "") /\ Own
  \/ Consume("data") /\ ph = "data" /\ Own /\ UNCHANGED sv
  \/ Consume("had") /\ Data(Ev.ok, Ev.spaces, SeqSet(Ev.ids)) /\ Own
  \/ Consume("reg") /\ Registers /\ Len(Ev.items) = Cardinality(Entries(Ev.items)) /\ Entries(Ev.items) = {[n |-> d.n, mode |-> "MUTABLE", v |-> d.v] : d \in declared}
                    /\ (\A i \in 1..Len(Ev.items) : Ev.items[i].module = set.module) /\ Own
  \/ Consume("reged") /\ Registered(Ev.ok) /\ Own
  \/ Consume("list") /\ Lists /\ Ev.module = set.module /\ Own
  \/ Consume("listed") /\ Listed(Ev.ok, Entries(Ev.items), set.listener) /\ Own
  \/ Consume("option") /\ set.listener /\ Hears(Ev.s, Pairwise(Ev.o)) /\ Len(Ev.o) = Cardinality(Pairwise(Ev.o)) /\ Own
  \/ Consume("flags") /\ owed = {} /\ DOMAIN flags = {Ev.v[i].n : i \in 1..Len(Ev.v)} /\ (\A i \in 1..Len(Ev.v) : FlagIs(Ev.v[i])) /\ Own /\ UNCHANGED sv
  \/ Consume("getconfig") /\ Ev.ready = reg /\ Own /\ UNCHANGED sv
  \/ Consume("idle") /\ Quiet /\ Own /\ UNCHANGED sv
  \/ Consume("ret") /\ Quiet /\ who # "" /\ who' = "" /\ set' = set /\ UNCHANGED sv
=============================================================================
