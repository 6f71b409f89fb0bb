----------------------------- MODULE SettingsMC -----------------------------
(* A meta service whose settings change, loads that fail at any of their parts, a listener: what holds in between. *)
EXTENDS Settings, TLC
CONSTANT Most
VARIABLES kept,    \* the meta service's items
          clock,   \* its latest change
          loads,
          heard    \* options the listener heard of, by space
mv == <<sv, kept, clock, loads, heard>>
One == <<49>>  Two == <<50>>  Obj == <<123, 125>>
Num(s) == [t |-> "int", s |-> s]
Opt(s) == [t |-> "map", m |-> {[k |-> <<97>>, t |-> "str", s |-> s]}]
Item(n, mode, v) == [n |-> n, mode |-> mode, v |-> v]
MInit == /\ flags = ("vs_i" :> [ty |-> "int32", v |-> [t |-> "text", s |-> One]]) @@ ("vs_m" :> [ty |-> "string", v |-> [t |-> "text", s |-> Obj]]) @@ ("vs_f" :> [ty |-> "int32", v |-> [t |-> "text", s |-> One]])
         /\ declared = ToDeclare(flags, [mutable |-> {"vs_i"}, nested |-> {"vs_m"}]) /\ reg = FALSE /\ seen = << >> /\ spaces = {} /\ told = 0 /\ caught = 0 /\ ph = "idle"
         /\ load = [bad |-> FALSE, got |-> {}] /\ owed = {}
         /\ kept = {Item("vs_i", "MUTABLE", Num(One)), Item("vs_m", "MUTABLE", [t |-> "map", m |-> {}])} /\ clock = 1 /\ loads = 0 /\ heard = << >>
Change == clock < 3 /\ clock' = clock + 1 /\ UNCHANGED <<sv, loads, heard>>
          /\ kept' \in {{Item("vs_i", "MUTABLE", Num(a)), Item("vs_m", "MUTABLE", Opt(b)), Item("vs_f", "IMMUTABLE", Num(Two))} : a \in {One, Two}, b \in {One, Two}}
Still == UNCHANGED <<kept, clock, loads, heard>>
MNext == \/ Change
         \/ loads < Most /\ Beat /\ loads' = loads + 1 /\ UNCHANGED <<kept, clock, heard>>
         \/ (\E ok \in BOOLEAN : Beaten(ok, clock, FALSE)) /\ Still
         \/ ph = "data" /\ load.got = {} /\ (\E ok \in BOOLEAN : Data(ok, TRUE, {1})) /\ Still
         \/ (load.bad \/ load.got # {}) /\ (Registers \/ Lists) /\ Still
         \/ (\E ok \in BOOLEAN : Registered(ok)) /\ Still
         \/ ph = "reged" /\ Lists /\ Still
         \/ (\E ok \in BOOLEAN : Listed(ok, kept, TRUE)) /\ UNCHANGED <<kept, clock, loads, heard>>
         \/ \E x \in owed : Hears(x.s, x.o) /\ heard' = (x.s :> x.o) @@ heard /\ UNCHANGED <<kept, clock, loads>>
\* caught up with the meta service: its settings are the process's
InForce == Quiet /\ caught = clock /\ caught > 0 => \A x \in kept : x.mode = "MUTABLE" => Has(flags[x.n], x.v)
\* what is not mutable stays
Fixed == flags["vs_f"].v.s = One
\* nothing is taken before the process has said what it has
First == seen # << >> => reg
Behind == caught <= told /\ told <= clock
\* what the listener heard last is what the setting has
Told == \A s \in DOMAIN heard : owed = {} => heard[s] = CurMap(flags["vs_m"].v)
=============================================================================
