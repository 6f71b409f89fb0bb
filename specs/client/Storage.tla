------------------------------ MODULE Storage ------------------------------
(* Requests to the storage service.  The client knows of each space its parts, their hosts
   and the type of its vertex ids; of some parts it believes to know the leader.  A request
   for many items is split: each item goes to the leader of the part it belongs to, one call
   per host, and the answers are collected.  What calls tell about leaders is believed.
   Hosts are [h |-> name, p |-> port]. *)
EXTENDS Placement, FiniteSets, TLC
CONSTANTS Nap, Timeout
VARIABLES ready,   \* whether the client has loaded yet
          spaces,  \* id -> [hosts: for each part its hosts, vid: the type of its ids]
          lead,    \* <<space, part>> -> the host believed to lead it
          pick,    \* <<space, part>> -> the number (from 0) of the host tried last
          ops,     \* operations under way
          out,     \* calls under way: call -> [op, host]
          conn     \* <<service, host, event base>> -> [sock, ok]
vars == <<ready, spaces, lead, pick, ops, out, conn>>
Without(f, k) == [x \in DOMAIN f \ k |-> f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

\* method -> the service, how its targets are found, and the call
Api == [
  getNeighbors |-> <<"GraphStorageService", "items", "getNeighbors">>, addVertices |-> <<"GraphStorageService", "items", "addVertices">>, addEdges |-> <<"GraphStorageService", "items", "addEdges">>,
  addEdgesAtomic |-> <<"GraphStorageService", "items", "addEdgesAtomic">>, getProps |-> <<"GraphStorageService", "items", "getProps">>,
  deleteEdges |-> <<"GraphStorageService", "items", "deleteEdges">>, deleteVertices |-> <<"GraphStorageService", "items", "deleteVertices">>, deleteTags |-> <<"GraphStorageService", "items", "deleteTags">>,
  lookupIndex |-> <<"GraphStorageService", "all", "lookupIndex">>, lookupAndTraverse |-> <<"GraphStorageService", "all", "lookupAndTraverse">>,
  updateVertex |-> <<"GraphStorageService", "key", "updateVertex">>, updateEdge |-> <<"GraphStorageService", "key", "updateEdge">>, getUUID |-> <<"GraphStorageService", "name", "getUUID">>,
  scanEdge |-> <<"GraphStorageService", "part", "scanEdge">>, scanVertex |-> <<"GraphStorageService", "part", "scanVertex">>,
  get |-> <<"GeneralStorageService", "keys", "get">>, put |-> <<"GeneralStorageService", "keys", "put">>, remove |-> <<"GeneralStorageService", "keys", "remove">>,
  forwardTransaction |-> <<"InternalStorageService", "txn", "forwardTransaction">>, getValue |-> <<"InternalStorageService", "value", "getValue">> ]
Kind(m) == Api[m][2]
Many == {"items", "all", "keys"}
Internal == {"txn", "value"}

\* ---- leaders
Parts(s) == 1..Len(spaces[s].hosts)
Asked(s, p) == (Get(pick, <<s, p>>, 0) + 1) % Len(spaces[s].hosts[p])
Leader(s, p) == IF <<s, p>> \in DOMAIN lead THEN lead[<<s, p>>] ELSE spaces[s].hosts[p][Asked(s, p) + 1]
\* the leaders of these parts were asked for: without one known the next host is tried, and believed
Ask(s, ps) == LET new == {<<s, p>> : p \in {q \in ps : <<s, q>> \notin DOMAIN lead}} IN
  /\ lead' = [k \in new |-> Leader(k[1], k[2])] @@ lead
  /\ pick' = [k \in new |-> Asked(k[1], k[2])] @@ pick
RECURSIVE Told(_, _, _, _)     \* what an answer says of failed parts, one by one
Told(L, s, fs, k) == IF k > Len(fs) THEN L
  ELSE LET f == fs[k] N == <<s, f.part>> IN
       Told(IF f.code = "E_LEADER_CHANGED" THEN (IF f.leader.h # "" /\ f.leader.p # 0 THEN (N :> f.leader) @@ L ELSE Without(L, {N}))
            ELSE IF f.code \in {"E_PART_NOT_FOUND", "E_SPACE_NOT_FOUND"} THEN Without(L, {N}) ELSE L, s, fs, k + 1)
\* a load: all is as it was told
Index(h, hs) == LET S == {k \in 1..Len(hs) : hs[k] = h} IN IF S = {} THEN 0 ELSE (CHOOSE k \in S : \A j \in S : k <= j) - 1
Load(sp, leaders) ==
  /\ ready' = TRUE /\ spaces' = sp /\ UNCHANGED <<ops, out, conn>>
  /\ lead' = [k \in {<<x.s, x.p>> : x \in leaders} |-> (CHOOSE x \in leaders : <<x.s, x.p>> = k).host]
  /\ pick' = [k \in {<<x.s, x.p>> : x \in leaders} |-> LET x == CHOOSE y \in leaders : <<y.s, y.p>> = k IN
               IF k[1] \in DOMAIN sp /\ k[2] \in 1..Len(sp[k[1]].hosts) THEN Index(x.host, sp[k[1]].hosts[k[2]]) ELSE 0]

\* ---- what is asked.  An item: [t: its text with the ids left out, ids: its ids]; an id: [int, b: its bytes]
Sent(x) == [x EXCEPT !.ids = [k \in 1..Len(x.ids) |-> [int |-> FALSE, b |-> x.ids[k].b]]]
Range(q) == {q[k] : k \in 1..Len(q)}
Chosen(q, T(_)) == SelectSeq(q, T)
\* the calls of an operation: host -> what is asked of it
Calls(m, s, o) ==
  LET n == Len(spaces[s].hosts) IN   \* (not used of spaces that are gone)
  CASE Kind(m) \in {"items", "keys"} ->
         LET At == [k \in 1..Len(o.items) |-> PartOf(o.items[k].ids[1].b, n)]
             Of(p) == [i \in 1..Cardinality({k \in DOMAIN At : At[k] = p}) |-> Sent(o.items[CHOOSE k \in DOMAIN At : At[k] = p /\ Cardinality({j \in 1..k : At[j] = p}) = i])]
             H == {Leader(s, p) : p \in Range(At)} IN
         {[host |-> h, parts |-> LET P == {p \in Range(At) : Leader(s, p) = h} IN [p \in P |-> Of(p)]] : h \in H}
    [] Kind(m) = "all" -> {[host |-> h, parts |-> [p \in {q \in Parts(s) : Leader(s, q) = h} |-> <<>>]] : h \in {Leader(s, p) : p \in Parts(s)}}
    [] Kind(m) \in {"key", "name"} -> LET p == PartOf(o.items[1].ids[1].b, n) IN {[host |-> Leader(s, p), parts |-> (p :> <<Sent(o.items[1])>>)]}
    [] Kind(m) = "part" -> {[host |-> Leader(s, o.part), parts |-> (o.part :> <<>>)]}
    [] Kind(m) \in Internal -> LET h == Leader(s, o.part) IN {[host |-> [h EXCEPT !.p = @ - 2], parts |-> (o.part :> <<>>)]}
\* the parts whose leaders it asks for
AskedParts(m, s, o) == CASE Kind(m) \in Many -> Parts(s) [] Kind(m) \in {"part", "txn", "value"} -> {o.part} [] OTHER -> {PartOf(o.items[1].ids[1].b, Len(spaces[s].hosts))}

NoSpace(s) == "Space not found, spaceid: " \o ToString(s)
\* what an operation is told at once; "" if it is taken
Refused(m, s, o) ==
  LET K == Kind(m) IN
  IF K \in {"items", "key"} /\ ~ready THEN "Not ready!"
  ELSE IF K \in {"items", "key"} /\ s \notin DOMAIN spaces THEN "Space " \o ToString(s) \o " not found"
  ELSE IF K \in {"items", "key"} /\ spaces[s].vid \notin {"INT64", "FIXED_STRING"} THEN "Space " \o ToString(s) \o ", vertexId type invalid: " \o spaces[s].vid
  ELSE IF K = "part" /\ ~ready THEN "Not ready!"
  ELSE IF K = "value" /\ s \notin DOMAIN spaces THEN "E_SPACE_NOT_FOUND"
  ELSE IF K = "txn" /\ (s \notin DOMAIN spaces \/ o.part \notin Parts(s)) /\ ~(<<s, o.part>> \in DOMAIN lead) THEN "E_SPACE_NOT_FOUND"
  ELSE IF s \notin DOMAIN spaces /\ ~(K \in {"part", "txn"} /\ <<s, o.part>> \in DOMAIN lead) THEN NoSpace(s)
  ELSE IF K = "part" /\ <<s, o.part>> \notin DOMAIN lead /\ o.part \notin Parts(s) THEN "Part not found in cache, spaceid: " \o ToString(s) \o ", partid: " \o ToString(o.part)
  ELSE ""

SInit == ready = FALSE /\ spaces = <<>> /\ lead = <<>> /\ pick = <<>> /\ ops = <<>> /\ out = <<>> /\ conn = <<>>

Answered(i) == ops[i].todo = {} /\ ~\E c \in DOMAIN out : out[c].op = i
\* nothing is left to do at once (but for operations still being started)
Quiet == \A i \in DOMAIN ops : (ops[i].todo = {} /\ ops[i].ph = "run" /\ ~Answered(i)) \/ ops[i].starting
Op(m, s, o, evb, res, todo) == [m |-> m, s |-> s, o |-> o, evb |-> evb, ph |-> "run", starting |-> TRUE, todo |-> todo, total |-> Cardinality(todo), bad |-> 0, failed |-> <<>>, resps |-> <<>>, max |-> 0, lat |-> <<>>, res |-> res]
Begin(i, m, s, given, evb) == LET o == IF Kind(m) = "value" /\ s \in DOMAIN spaces THEN [given EXCEPT !.part = PartOf(given.items[1].ids[1].b, Len(spaces[s].hosts))] ELSE given IN
  /\ i \notin DOMAIN ops /\ UNCHANGED <<ready, spaces, out, conn>>
  /\ LET r == Refused(m, s, o) IN
     IF r # "" THEN /\ ops' = ops @@ (i :> Op(m, s, o, evb, <<"told", r>>, {})) /\ UNCHANGED <<lead, pick>>
     ELSE Ask(s, AskedParts(m, s, o)) /\ ops' = ops @@ (i :> Op(m, s, o, evb, <<"open">>, Calls(m, s, o)))
Started(i) == ops' = [ops EXCEPT ![i].starting = FALSE] /\ UNCHANGED <<ready, spaces, lead, pick, out, conn>>
\* a connection is used as long as it is good
Connect(svc, h, evb, sock) ==
  LET k == <<svc, h, evb>> IN
  /\ IF k \in DOMAIN conn /\ conn[k].ok THEN conn[k].sock = sock ELSE \A j \in DOMAIN conn : conn[j].sock # sock
  /\ conn' = (k :> [sock |-> sock, ok |-> TRUE]) @@ conn
Send(i, r, c, evb, sock) ==
  /\ r \in ops[i].todo /\ ops' = [ops EXCEPT ![i].todo = @ \ {r}]
  /\ ops[i].evb # 0 /\ Kind(ops[i].m) \notin Many => evb = ops[i].evb
  /\ out' = out @@ (c :> [op |-> i, host |-> r.host, parts |-> DOMAIN r.parts])
  /\ Connect(Api[ops[i].m][1], r.host, evb, sock) /\ UNCHANGED <<ready, spaces, lead, pick>>
Break(sock) == conn' = [k \in DOMAIN conn |-> IF conn[k].sock = sock THEN [conn[k] EXCEPT !.ok = FALSE] ELSE conn[k]] /\ UNCHANGED <<ready, spaces, lead, pick, ops, out>>
\* the call failed
Fail(c, msg) == LET i == out[c].op IN
  /\ out' = Without(out, {c}) /\ lead' = Without(lead, {<<ops[i].s, p>> : p \in out[c].parts})
  /\ ops' = [ops EXCEPT ![i].bad = @ + 1, ![i].failed = @ @@ [p \in out[c].parts |-> "E_RPC_FAILURE"], ![i].res = <<"rpc", msg>>]
  /\ UNCHANGED <<ready, spaces, pick, conn>>
\* the answer: the parts it says failed, the time it took, its text
RECURSIVE AddFailed(_, _, _)
AddFailed(F, fs, k) == IF k > Len(fs) THEN F ELSE AddFailed(F @@ (fs[k].part :> fs[k].code), fs, k + 1)
Again(i, fs) == Kind(ops[i].m) \in Internal /\ fs # <<>> /\ fs[1].code = "E_LEADER_CHANGED"
Answer(c, fs, lat, text, val) == LET i == out[c].op IN
  /\ out' = Without(out, {c}) /\ lead' = Told(lead, ops[i].s, fs, 1)
  /\ ops' = [ops EXCEPT ![i].bad = @ + (IF fs = <<>> THEN 0 ELSE 1), ![i].failed = AddFailed(@, fs, 1), ![i].resps = Append(@, text), ![i].max = IF lat > @ THEN lat ELSE @,
                        ![i].lat = Append(@, <<out[c].host, lat>>), ![i].ph = IF Again(i, fs) THEN "nap" ELSE @,
                        ![i].res = IF fs # <<>> /\ Kind(ops[i].m) \in Internal THEN <<"code", fs[1].code>> ELSE <<"ok", val>>]
  /\ UNCHANGED <<ready, spaces, pick, conn>>
\* told of another leader, after a pause it asks again
Wake(i, ms) == LET o == ops[i] IN
  /\ o.ph = "nap" /\ ms = Nap /\ UNCHANGED <<ready, spaces, out, conn>>
  /\ IF Refused("forwardTransaction", o.s, o.o) # "" THEN ops' = [ops EXCEPT ![i].ph = "run", ![i].res = <<"told", "E_SPACE_NOT_FOUND">>] /\ UNCHANGED <<lead, pick>>
     ELSE Ask(o.s, AskedParts(o.m, o.s, o.o)) /\ ops' = [ops EXCEPT ![i].ph = "run", ![i].todo = Calls(o.m, o.s, o.o), ![i].res = <<"open">>]
End(i) == Answered(i) /\ ops[i].ph # "nap" /\ ops' = Without(ops, {i}) /\ UNCHANGED <<ready, spaces, lead, pick, out, conn>>
\* the share of calls that did not fail, of all: in percent, cut off
Completeness(o) == ((o.total - o.bad) * 100) \div o.total
=============================================================================
