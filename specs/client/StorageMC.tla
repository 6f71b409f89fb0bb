----------------------------- MODULE StorageMC -----------------------------
(* The routing by itself: one space of two parts on two hosts, two operations, an adverse network. *)
EXTENDS Storage
CONSTANT Methods, Most
A == [h |-> "a", p |-> 10]
B == [h |-> "b", p |-> 10]
Key(k) == [t |-> "", ids |-> <<[int |-> FALSE, b |-> [i \in 1..8 |-> IF i = 1 THEN k ELSE 0]]>>]
Arg == [items |-> <<Key(1), Key(2), Key(1)>>, part |-> 2]
VARIABLES made, over       \* calls made; operations that ended
mv == <<vars, made, over>>
MInit == SInit /\ made = 0 /\ over = {}
Codes == {<<>>, <<[part |-> 1, code |-> "E_LEADER_CHANGED", leader |-> A]>>, <<[part |-> 2, code |-> "E_LEADER_CHANGED", leader |-> [h |-> "", p |-> 0]]>>, <<[part |-> 2, code |-> "E_PART_NOT_FOUND", leader |-> A], [part |-> 1, code |-> "E_OTHER", leader |-> A]>>}
MNext == \/ ~ready /\ (\E L \in SUBSET {[s |-> 1, p |-> 1, host |-> A], [s |-> 1, p |-> 2, host |-> B]} : Load(1 :> [hosts |-> << <<A, B>>, <<B, A>> >>, vid |-> "INT64"], L)) /\ UNCHANGED <<made, over>>
         \/ \E i \in {1, 2}, m \in Methods : i \notin over /\ (i = 2 => 1 \in DOMAIN ops \cup over) /\ Begin(i, m, 1, Arg, 0) /\ UNCHANGED <<made, over>>
         \/ \E i \in DOMAIN ops : ops[i].starting /\ Started(i) /\ UNCHANGED <<made, over>>
         \/ made < Most /\ \E i \in DOMAIN ops : \E r \in ops[i].todo : Send(i, r, made, 1, IF <<Api[ops[i].m][1], r.host, 1>> \in DOMAIN conn /\ conn[<<Api[ops[i].m][1], r.host, 1>>].ok THEN conn[<<Api[ops[i].m][1], r.host, 1>>].sock ELSE made) /\ made' = made + 1 /\ over' = over
         \/ \E c \in DOMAIN out : (Fail(c, "x") \/ \E fs \in Codes : Answer(c, fs, 3, "r", "v")) /\ UNCHANGED <<made, over>>
         \/ \E i \in DOMAIN ops : Wake(i, Nap) /\ UNCHANGED <<made, over>>
         \/ \E i \in DOMAIN ops : End(i) /\ over' = over \cup {i} /\ made' = made
\* calls unanswered and unsent and answered are all calls
Calls3 == \A i \in DOMAIN ops : LET o == ops[i] IN
  Kind(o.m) \in Many => /\ o.total >= Cardinality(o.todo) + Cardinality({c \in DOMAIN out : out[c].op = i}) + Len(o.resps)
                        /\ Answered(i) => o.total <= Len(o.resps) + o.bad
                        /\ o.bad <= o.total /\ (o.bad = 0) = (DOMAIN o.failed = {})
\* every item is asked of exactly one host, in one part, and nothing else is
Once == \A m \in Methods : ready /\ Refused(m, 1, Arg) = "" /\ Kind(m) \in {"items", "keys"} =>
  LET C == Calls(m, 1, Arg) IN
  /\ Cardinality({r.host : r \in C}) = Cardinality(C)
  /\ \A p \in Parts(1) : Cardinality({r \in C : p \in DOMAIN r.parts}) <= 1
  /\ \A k \in 1..Len(Arg.items) : Cardinality({<<r, p, j>> \in UNION {UNION {{<<r, p, j>> : j \in 1..Len(r.parts[p])} : p \in DOMAIN r.parts} : r \in C} : r.parts[p][j] = Sent(Arg.items[k])}) = Cardinality({j \in 1..Len(Arg.items) : Arg.items[j] = Arg.items[k]})
  /\ \A r \in C : \A p \in DOMAIN r.parts : <<1, p>> \in DOMAIN lead => r.host = lead[<<1, p>>]
\* only known hosts are asked
Known == /\ \A k \in DOMAIN lead : lead[k] \in {A, B}
         /\ \A c \in DOMAIN out : out[c].host \in {A, B} \cup {[A EXCEPT !.p = 8], [B EXCEPT !.p = 8]}
\* a connection belongs to one service, host and event base
Own == \A j, k \in DOMAIN conn : conn[j].sock = conn[k].sock => j = k
=============================================================================
