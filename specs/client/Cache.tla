------------------------------- MODULE Cache -------------------------------
(* What a client of metad knows: loaded call by call, taken over at once when the last call of a load is
   answered (accounts, full-text clients and full-text indexes as soon as their own calls are), told to the
   listener as the difference for its own host, and answered to whoever asks. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Schema
CONSTANT Full   \* schemas with their layout
VARIABLES kn,     \* what is known
          ready,
          ld,     \* the load going on: what was answered; pending calls
          todo,   \* what the listener is still to be told
          beat,   \* time stamps: seen of metad, taken over; next heartbeat; the client's cluster id
          at_     \* what the client is doing: who asked, what is due next
cv == <<kn, ready, ld, todo, beat, at_>>
Range(q) == {q[k] : k \in 1..Len(q)}
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
NoLoad == [on |-> FALSE, got |-> <<>>, pend |-> <<>>]
Nothing == [pass |-> <<>>, roles |-> <<>>, ftc |-> <<>>, fti |-> {}, spaces |-> <<>>, hosts |-> <<>>, led |-> <<>>, picked |-> <<>>]
CInit == kn = Nothing /\ ready = FALSE /\ ld = NoLoad /\ todo = {} /\ beat = [seen |-> 0, taken |-> 0, lo |-> 0, hi |-> 0, on |-> FALSE, cid |-> "0"] /\ at_ = [who |-> "", next |-> "", tries |-> 0, ret |-> FALSE]

\* ---- the calls of a load
Call(m, k) == [m |-> m, k |-> k]
OfSpace == {"getPartsAlloc", "listTags", "listEdges", "listTagIndexes", "listEdgeIndexes", "listListener"}
Needs(got) == {Call(m, "") : m \in {"listUsers", "listFTClients", "listFTIndexes", "listSpaces", "listHosts"}}
  \cup (IF Call("listUsers", "") \in DOMAIN got THEN {Call("getUserRoles", u.n) : u \in Range(got[Call("listUsers", "")])} ELSE {})
  \cup (IF Call("listSpaces", "") \in DOMAIN got THEN UNION {{Call(m, s.k) : m \in OfSpace} \cup {Call("getSpace", s.n)} : s \in Range(got[Call("listSpaces", "")])} ELSE {})
Users(got) == Range(got[Call("listUsers", "")])
HasUsers(got) == Call("listUsers", "") \in DOMAIN got /\ \A u \in Users(got) : Call("getUserRoles", u.n) \in DOMAIN got
\* taken over at once
Early(k, got) == [k EXCEPT
  !.pass = IF HasUsers(got) THEN [n \in {u.n : u \in Users(got)} |-> (CHOOSE u \in Users(got) : u.n = n).p] ELSE @,
  !.roles = IF HasUsers(got) THEN [n \in {u.n : u \in Users(got)} |-> got[Call("getUserRoles", n)]] ELSE @,
  !.ftc = IF Call("listFTClients", "") \in DOMAIN got THEN got[Call("listFTClients", "")] ELSE @,
  !.fti = IF Call("listFTIndexes", "") \in DOMAIN got THEN Range(got[Call("listFTIndexes", "")]) ELSE @]
Named(r) == [k \in {e.k : e \in Range(r)} |-> (CHOOSE e \in Range(r) : e.k = k).v]
Space(got, s) == LET g(m) == got[Call(m, s.k)] pa == g("getPartsAlloc") IN
  [name |-> s.n, desc |-> got[Call("getSpace", s.n)], parts |-> Named(pa.parts), terms |-> Named(pa.terms), tags |-> g("listTags"), edges |-> g("listEdges"),
   tagIndexes |-> Range(g("listTagIndexes")), edgeIndexes |-> Range(g("listEdgeIndexes")), listeners |-> g("listListener")]
Spaces(got) == LET S == Range(got[Call("listSpaces", "")]) IN [i \in {s.id : s \in S} |-> Space(got, CHOOSE s \in S : s.id = i)]
Leads(got, sp) == UNION {UNION {{<<i, p, e.h>> : p \in UNION {Range(x.ps) : x \in {y \in Range(e.l) : y.n = sp[i].name}}} : i \in DOMAIN sp} : e \in Range(got[Call("listHosts", "")])}
Index(q, h) == IF \E k \in 1..Len(q) : q[k] = h THEN (CHOOSE k \in 1..Len(q) : q[k] = h /\ \A j \in 1..k - 1 : q[j] # h) ELSE 1
Whole(k, got) == LET sp == Spaces(got) hs == got[Call("listHosts", "")] L == Leads(got, sp) IN
  [k EXCEPT !.spaces = sp, !.hosts = [i \in 1..Len(hs) |-> hs[i].h],
            !.led = [x \in {<<e[1], e[2]>> : e \in L} |-> (CHOOSE e \in L : <<e[1], e[2]>> = x)[3]],
            !.picked = [x \in {<<e[1], e[2]>> : e \in L} |-> Index(Get(sp[x[1]].parts, x[2], <<>>), (CHOOSE e \in L : <<e[1], e[2]>> = x)[3]) - 1]]

\* ---- what the listener of a host is told of the step from one state to the next
T(m, s, p, b, ty, hs) == [m |-> m, s |-> s, p |-> p, b |-> b, ty |-> ty, hs |-> hs, rs |-> {}]
Mine(sp, h) == UNION {{[s |-> i, p |-> p, hs |-> sp[i].parts[p]] : p \in {q \in DOMAIN sp[i].parts : h \in Range(sp[i].parts[q])}} : i \in DOMAIN sp}
Follows(sp, h) == UNION {{[s |-> i, p |-> x.p, ty |-> x.ty, hs |-> sp[i].parts[x.p]] : x \in {y \in Range(sp[i].listeners) : y.h = h /\ y.p \in DOMAIN sp[i].parts}} : i \in DOMAIN sp}
Told(old, new, h) == LET
  A == Mine(old, h) B == Mine(new, h) F == Follows(old, h) G == Follows(new, h)
  SA == {x.s : x \in A} SB == {x.s : x \in B} SF == {x.s : x \in F} SG == {x.s : x \in G}
  Had(x) == \E y \in A : y.s = x.s /\ y.p = x.p
  IN {T("SpaceAdded", s, 0, FALSE, "", <<>>) : s \in SB \ SA} \cup {T("SpaceRemoved", s, 0, FALSE, "", <<>>) : s \in SA \ SB}
     \cup {T("PartAdded", x.s, x.p, FALSE, "", x.hs) : x \in {y \in B : ~Had(y)}}
     \cup {T("PartUpdated", x.s, x.p, FALSE, "", x.hs) : x \in {y \in B \ A : Had(y)}}
     \cup {T("PartRemoved", x.s, x.p, FALSE, "", <<>>) : x \in {y \in A : ~\E z \in B : z.s = y.s /\ z.p = y.p}}
     \cup {T("SpaceAdded", s, 0, TRUE, "", <<>>) : s \in SG \ SF} \cup {T("SpaceRemoved", s, 0, TRUE, "", <<>>) : s \in SF \ SG}
     \cup {T("ListenerAdded", x.s, x.p, TRUE, x.ty, x.hs) : x \in G \ F} \cup {T("ListenerRemoved", x.s, x.p, TRUE, x.ty, <<>>) : x \in F \ G}
     \cup {[T("CheckRemoteListeners", x.s, x.p, FALSE, "", <<>>) EXCEPT !.rs = {y.h : y \in {z \in Range(new[x.s].listeners) : z.p = x.p}}] : x \in B}
\* x is told before y
Before(x, y) == \/ y.m = "CheckRemoteListeners" /\ x.m # y.m
                \/ x.m = "SpaceAdded" /\ y.m \in {"PartAdded", "ListenerAdded"} /\ x.s = y.s /\ x.b = y.b
                \/ y.m = "SpaceRemoved" /\ x.m \in {"PartRemoved", "ListenerRemoved"} /\ x.s = y.s /\ x.b = y.b
                \/ x.m = "ListenerRemoved" /\ y.m = "ListenerAdded" /\ x.s = y.s /\ x.p = y.p /\ x.ty = y.ty
Tell(e) == e \in todo /\ (\A x \in todo : ~Before(x, e)) /\ todo' = todo \ {e} /\ UNCHANGED <<kn, ready, ld, beat, at_>>

\* ---- loading
Begin == ld' = [NoLoad EXCEPT !.on = TRUE]
Asks(c, m, k) == /\ ld.on /\ Call(m, k) \in Needs(ld.got) \ (DOMAIN ld.got \cup Range(ld.pend)) /\ todo = {}
                 /\ ld' = [ld EXCEPT !.pend = Append(@, Call(m, k))] /\ UNCHANGED <<kn, ready, todo, beat, at_>>
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
Over(ok) == CASE at_.who = "ready" -> [at_ EXCEPT !.next = "ret"] [] at_.who = "wait" -> [at_ EXCEPT !.next = "again"] [] at_.who = "refresh" -> [at_ EXCEPT !.next = "ret", !.ret = ok] [] at_.who = "beat" -> [at_ EXCEPT !.who = "", !.next = ""]
\* h: the listener's host, "" without listener
Answers(m, k, r, h, now, pause) ==
  /\ ld.on /\ Call(m, k) \in Range(ld.pend)
  /\ LET got == Call(m, k) :> r @@ ld.got IN
     IF Needs(got) \subseteq DOMAIN got
     THEN /\ kn' = Whole(Early(kn, got), got) /\ ready' = TRUE /\ ld' = NoLoad
          /\ todo' = IF h = "" THEN {} ELSE Told(kn.spaces, kn'.spaces, h)
          /\ beat' = [beat EXCEPT !.taken = IF at_.who = "refresh" THEN @ ELSE beat.seen, !.lo = IF at_.who = "beat" THEN now + pause ELSE @, !.hi = IF at_.who = "beat" THEN now + pause ELSE @, !.on = IF at_.who = "beat" THEN TRUE ELSE @] /\ at_' = Over(TRUE)
     ELSE kn' = Early(kn, got) /\ ld' = [ld EXCEPT !.got = got, !.pend = Without(@, Call(m, k))] /\ UNCHANGED <<ready, todo, beat, at_>>
Fails(m, k, now, pause) ==
  /\ ld.on /\ Call(m, k) \in Range(ld.pend) /\ ld' = NoLoad /\ at_' = Over(FALSE)
  /\ beat' = IF at_.who = "beat" THEN [beat EXCEPT !.lo = now + pause, !.hi = now + pause, !.on = TRUE] ELSE beat
  /\ UNCHANGED <<kn, ready, todo>>
\* ---- heartbeats
Idle == ~ld.on /\ at_.who = "" /\ todo = {}
Beat(now) == /\ todo = {}
             /\ \/ at_.next = "beat" /\ at_' = [at_ EXCEPT !.next = "answer"] /\ beat' = beat
                \/ Idle /\ beat.on /\ now \in beat.lo..beat.hi /\ at_' = [at_ EXCEPT !.who = "beat", !.next = "answer"] /\ beat' = [beat EXCEPT !.on = FALSE]
             /\ UNCHANGED <<kn, ready, ld, todo>>
\* the answer: "ok" with metad's time, "moved" (no leader), "" (it failed)
Beaten(how, time, now, pause) ==
  /\ at_.next = "answer"
  /\ LET b == IF how = "ok" THEN [beat EXCEPT !.seen = time] ELSE beat IN
     IF at_.who = "beat"
     THEN IF how = "ok" /\ b.taken < b.seen THEN Begin /\ at_' = [at_ EXCEPT !.next = ""] /\ beat' = b /\ ready' = ready
          ELSE at_' = [at_ EXCEPT !.who = "", !.next = ""] /\ beat' = [b EXCEPT !.lo = now + pause, !.hi = now + pause, !.on = TRUE] /\ UNCHANGED <<ld, ready>>
     ELSE IF how = "" THEN ready' = FALSE /\ at_' = Over(FALSE) /\ UNCHANGED <<ld, beat>>
          ELSE Begin /\ at_' = [at_ EXCEPT !.next = ""] /\ beat' = b /\ ready' = ready
  /\ UNCHANGED <<kn, todo>>
\* ---- what is asked of the client
Do(who, tries) == /\ Idle /\ at_' = [who |-> who, next |-> IF who = "refresh" THEN "" ELSE "beat", tries |-> tries, ret |-> FALSE]
                  /\ (IF who = "refresh" THEN Begin ELSE ld' = ld) /\ UNCHANGED <<kn, ready, todo, beat>>
\* tries: those left, -1 for no end
Again(ms, nap, stopped) == /\ at_.who = "wait" /\ at_.next = "again" /\ todo = {} /\ ~ready /\ at_.tries # 0 /\ ~stopped /\ ms = nap
                  /\ at_' = [at_ EXCEPT !.next = "beat", !.tries = IF @ = -1 THEN -1 ELSE @ - 1] /\ UNCHANGED <<kn, ready, ld, todo, beat>>
Returns(v, now, pause, stopped) ==
  /\ todo = {}
  /\ \/ at_.who = "ready" /\ at_.next = "ret" /\ v = ready /\ beat' = beat
     \/ at_.who = "refresh" /\ at_.next = "ret" /\ v = at_.ret /\ beat' = beat
     \/ at_.who = "wait" /\ at_.next = "again" /\ (ready \/ at_.tries = 0 \/ stopped) /\ v = (ready /\ ~stopped)
        /\ beat' = IF stopped THEN beat ELSE [beat EXCEPT !.on = TRUE, !.lo = now + pause, !.hi = now + pause + 899]
  /\ at_' = [at_ EXCEPT !.who = "", !.next = ""] /\ UNCHANGED <<kn, ready, ld, todo>>
Stop == beat' = [beat EXCEPT !.on = FALSE] /\ UNCHANGED <<kn, ready, ld, todo, at_>>
\* nothing is owed but answers
Waits == todo = {} /\ (ld.on => Len(ld.pend) > 0) /\ at_.next \in {"", "answer"}

\* ---- what it answers
Yes(v) == [ok |-> TRUE, c |-> 0, v |-> v]
No(c) == [ok |-> FALSE, c |-> c]
General == 101
SpaceNF == 404
HostNF == 405
TagNF == 406
EdgeNF == 407
IndexNF == 411
PartNF == 412
ListenerNF == 415
Sp == kn.spaces
R(x) == IF ready THEN x ELSE No(General)
In(s, e, x) == IF s \in DOMAIN Sp THEN x ELSE No(e)
Items(s, kind) == Sp[s][kind]
Ids(s, kind) == {x.id : x \in Range(Items(s, kind))}
Versions(s, kind, t) == {x \in Range(Items(s, kind)) : x.id = t}
Newest(s, kind, t) == CHOOSE v \in {x.ver : x \in Versions(s, kind, t)} : \A x \in Versions(s, kind, t) : x.ver <= v
Show(x) == IF Full THEN Laid(x) ELSE Held(x)
None == [no |-> "null"]
OfVer(s, kind, t, v) == CHOOSE x \in Versions(s, kind, t) : x.ver = v
Sch(s, kind, t, ver) == IF s \notin DOMAIN Sp \/ t \notin (IF s \in DOMAIN Sp THEN Ids(s, kind) ELSE {}) THEN None
                        ELSE LET n == Newest(s, kind, t) IN IF ver > n THEN None ELSE Show(OfVer(s, kind, t, IF ver < 0 THEN n ELSE ver))
AllVer(s, kind) == {[t |-> t, v |-> [k \in 1..Newest(s, kind, t) + 1 |-> Show(OfVer(s, kind, t, k - 1))]] : t \in Ids(s, kind)}
Latest(s, kind) == {[t |-> t, v |-> Show(OfVer(s, kind, t, Newest(s, kind, t)))] : t \in Ids(s, kind)}
ByName(s, kind, n) == {x \in Range(Items(s, kind)) : x.name = n}
IdOf(s, kind, n) == IF s \in DOMAIN Sp /\ (IF s \in DOMAIN Sp THEN ByName(s, kind, n) # {} ELSE FALSE) THEN Yes((CHOOSE x \in ByName(s, kind, n) : TRUE).id) ELSE No(General)
NameOf(s, kind, t) == IF s \in DOMAIN Sp /\ (IF s \in DOMAIN Sp THEN t \in Ids(s, kind) ELSE FALSE) THEN Yes((CHOOSE x \in Versions(s, kind, t) : TRUE).name) ELSE No(General)
VerOf(s, kind, t, e) == IF s \in DOMAIN Sp /\ (IF s \in DOMAIN Sp THEN t \in Ids(s, kind) ELSE FALSE) THEN Yes(Newest(s, kind, t)) ELSE No(e)
Indexes(s, kind) == In(s, SpaceNF, Yes({x.v : x \in Items(s, kind)}))
AnIndex(s, kind, t) == In(s, SpaceNF, IF \E x \in Items(s, kind) : x.id = t THEN Yes((CHOOSE x \in Items(s, kind) : x.id = t).v) ELSE No(IndexNF))
IndexNamed(s, kind, n, f(_)) == IF s \in DOMAIN Sp /\ (IF s \in DOMAIN Sp THEN \E x \in Items(s, kind) : x.name = n ELSE FALSE) THEN Yes(f(CHOOSE x \in Items(s, kind) : x.name = n)) ELSE No(IndexNF)
Status(r) == IF r.ok THEN Yes(0) ELSE r
OnHost(s, h) == {p \in DOMAIN Sp[s].parts : h \in Range(Sp[s].parts[p])}
FtHas(x, s) == x.s = s
Picked(s, p) == (Get(kn.picked, <<s, p>>, 0) + 1) % Len(Sp[s].parts[p])
\* of a query q: m and its arguments s, t, p, n, h, w (a password), ty, ver
Says(q) == CASE
     q.m \in {"spaceId", "smSpaceId"} -> R(IF \E i \in DOMAIN Sp : Sp[i].name = q.n THEN Yes(CHOOSE i \in DOMAIN Sp : Sp[i].name = q.n) ELSE No(SpaceNF))
  [] q.m \in {"spaceName", "smSpaceName"} -> R(In(q.s, General, Yes(Sp[q.s].desc.name)))
  [] q.m \in {"vidLen", "smVidLen"} -> R(In(q.s, General, IF Sp[q.s].desc.len <= 0 THEN No(General) ELSE Yes(Sp[q.s].desc.len)))
  [] q.m \in {"vidType", "smVidType"} -> R(In(q.s, General, IF Sp[q.s].desc.vid \notin {"INT64", "FIXED_STRING"} THEN No(General) ELSE Yes(Sp[q.s].desc.vid)))
  [] q.m = "spaceDesc" -> R(In(q.s, General, Yes(Sp[q.s].desc.t)))
  [] q.m = "isolation" -> R(In(q.s, General, Yes(Sp[q.s].desc.iso)))
  [] q.m \in {"tagId", "smTagId"} -> R(IdOf(q.s, "tags", q.n)) [] q.m \in {"edgeType", "smEdgeType"} -> R(IdOf(q.s, "edges", q.n))
  [] q.m \in {"tagName", "smTagName"} -> R(NameOf(q.s, "tags", q.t)) [] q.m \in {"edgeName", "smEdgeName"} -> R(NameOf(q.s, "edges", q.t))
  [] q.m \in {"tagVer", "smTagVer"} -> R(VerOf(q.s, "tags", q.t, TagNF)) [] q.m \in {"edgeVer", "smEdgeVer"} -> R(VerOf(q.s, "edges", q.t, EdgeNF))
  [] q.m \in {"allEdge", "smAllEdge"} -> R(In(q.s, General, Yes({x.name : x \in Range(Sp[q.s].edges)})))
  [] q.m = "partsMap" -> Yes(Mine(Sp, q.h))
  [] q.m = "partHosts" -> In(q.s, General, IF q.p \in DOMAIN Sp[q.s].parts THEN Yes([s |-> q.s, p |-> q.p, hs |-> Sp[q.s].parts[q.p]]) ELSE No(General))
  [] q.m = "partExist" -> In(q.s, SpaceNF, IF OnHost(q.s, q.h) = {} THEN No(HostNF) ELSE IF q.p \in OnHost(q.s, q.h) THEN Yes(0) ELSE No(PartNF))
  [] q.m = "spaceExist" -> In(q.s, SpaceNF, IF OnHost(q.s, q.h) = {} THEN No(PartNF) ELSE Yes(0))
  [] q.m \in {"partsNum", "smPartsNum"} -> In(q.s, General, Yes(Cardinality(DOMAIN Sp[q.s].parts)))
  [] q.m = "tagSchema" -> R(Yes(Sch(q.s, "tags", q.t, q.ver))) [] q.m = "edgeSchema" -> R(Yes(Sch(q.s, "edges", q.t, q.ver)))
  [] q.m = "smTagSchema" -> Yes(IF ready THEN Sch(q.s, "tags", q.t, q.ver) ELSE None) [] q.m = "smEdgeSchema" -> Yes(IF ready THEN Sch(q.s, "edges", q.t, q.ver) ELSE None)
  [] q.m \in {"allVerTag", "smAllVerTag"} -> R(In(q.s, General, Yes(AllVer(q.s, "tags")))) [] q.m \in {"allVerEdge", "smAllVerEdge"} -> R(In(q.s, General, Yes(AllVer(q.s, "edges"))))
  [] q.m \in {"latestTag", "smLatestTag"} -> R(In(q.s, General, Yes(Latest(q.s, "tags")))) [] q.m \in {"latestEdge", "smLatestEdge"} -> R(In(q.s, General, Yes(Latest(q.s, "edges"))))
  [] q.m = "tagIndexByName" -> R(IndexNamed(q.s, "tagIndexes", q.n, LAMBDA x : x.v)) [] q.m = "edgeIndexByName" -> R(IndexNamed(q.s, "edgeIndexes", q.n, LAMBDA x : x.v))
  [] q.m = "relatedTag" -> R(IndexNamed(q.s, "tagIndexes", q.n, LAMBDA x : x.of)) [] q.m = "relatedEdge" -> R(IndexNamed(q.s, "edgeIndexes", q.n, LAMBDA x : x.of))
  [] q.m = "imTagIndexId" -> R(IndexNamed(q.s, "tagIndexes", q.n, LAMBDA x : x.id)) [] q.m = "imEdgeIndexId" -> R(IndexNamed(q.s, "edgeIndexes", q.n, LAMBDA x : x.id))
  [] q.m \in {"tagIndex", "imTagIndex"} -> R(AnIndex(q.s, "tagIndexes", q.t)) [] q.m \in {"edgeIndex", "imEdgeIndex"} -> R(AnIndex(q.s, "edgeIndexes", q.t))
  [] q.m \in {"tagIndexes", "imTagIndexes"} -> R(Indexes(q.s, "tagIndexes")) [] q.m \in {"edgeIndexes", "imEdgeIndexes"} -> R(Indexes(q.s, "edgeIndexes"))
  [] q.m \in {"tagIndexed", "imTagIndexed"} -> Status(AnIndex(q.s, "tagIndexes", q.t)) [] q.m \in {"edgeIndexed", "imEdgeIndexed"} -> Status(AnIndex(q.s, "edgeIndexes", q.t))
  [] q.m = "roles" -> Yes(IF ready THEN Get(kn.roles, q.n, "[]") ELSE "[]")
  [] q.m = "auth" -> Yes(ready /\ q.n \in DOMAIN kn.pass /\ (IF q.n \in DOMAIN kn.pass THEN kn.pass[q.n] = q.w ELSE FALSE)) [] q.m = "shadow" -> Yes(ready /\ q.n \in DOMAIN kn.pass)
  [] q.m = "term" -> Yes(IF q.s \in DOMAIN Sp THEN Get(Sp[q.s].terms, q.p, "-1") ELSE "-1")
  [] q.m = "hosts" -> R(Yes(kn.hosts))
  [] q.m = "leader" -> R(IF <<q.s, q.p>> \in DOMAIN kn.led THEN Yes(kn.led[<<q.s, q.p>>]) ELSE In(q.s, General, IF q.p \in DOMAIN Sp[q.s].parts THEN Yes(Sp[q.s].parts[q.p][Picked(q.s, q.p) + 1]) ELSE No(General)))
  [] q.m = "leaderInfo" -> R(Yes({[s |-> x[1], p |-> x[2], h |-> kn.led[x]] : x \in DOMAIN kn.led}))
  [] q.m = "listeners" -> R(In(q.s, SpaceNF, LET L == {x \in Range(Sp[q.s].listeners) : x.h = q.h} IN IF L = {} THEN No(ListenerNF) ELSE Yes({[p |-> x.p, ty |-> x.ty] : x \in L})))
  [] q.m = "listenersByHost" -> R(Yes(Follows(Sp, q.h)))
  [] q.m = "listenerHost" -> R(In(q.s, SpaceNF, LET L == {x \in Range(Sp[q.s].listeners) : x.p = q.p /\ x.ty = q.ty} IN IF L = {} THEN No(ListenerNF) ELSE Yes({x.h : x \in L})))
  [] q.m = "listenerHosts" -> R(In(q.s, SpaceNF, LET L == {x \in Range(Sp[q.s].listeners) : x.p = q.p} IN IF L = {} THEN No(ListenerNF) ELSE Yes({[h |-> x.h, ty |-> x.ty] : x \in L})))
  [] q.m = "ftClients" -> R(Yes(kn.ftc))
  [] q.m = "smFtClients" -> R(IF kn.ftc = <<>> THEN No(General) ELSE Yes(kn.ftc))
  [] q.m = "ftIndexes" -> R(Yes({[n |-> x.n, v |-> x.v] : x \in kn.fti}))
  [] q.m = "ftBySpace" -> R(Yes({[n |-> x.n, v |-> x.v] : x \in {y \in kn.fti : y.s = q.s}}))
  [] q.m \in {"ftBySchema", "smFtIndex"} -> R(LET L == {x \in kn.fti : x.s = q.s /\ x.of = q.t} IN IF L = {} THEN No(IndexNF) ELSE Yes({[n |-> x.n, v |-> x.v] : x \in L}))
  [] q.m = "ftByName" -> R(LET L == {x \in kn.fti : x.s = q.s /\ x.n = q.n} IN IF L = {} THEN No(IndexNF) ELSE Yes((CHOOSE x \in L : TRUE).v))
\* any of several answers will do
AnyOf == {"listenerHost", "ftBySchema", "smFtIndex"}
\* answered as sets
AsSet == {"allEdge", "smAllEdge", "partsMap", "allVerTag", "smAllVerTag", "allVerEdge", "smAllVerEdge", "latestTag", "smLatestTag", "latestEdge", "smLatestEdge", "tagIndexes", "imTagIndexes", "edgeIndexes", "imEdgeIndexes",
          "leaderInfo", "listeners", "listenersByHost", "listenerHosts", "ftIndexes", "ftBySpace"}
\* asking for a leader nobody named chooses one, for good
Query(q) == /\ kn' = IF q.m = "leader" /\ ready /\ <<q.s, q.p>> \notin DOMAIN kn.led /\ q.s \in DOMAIN Sp /\ (IF q.s \in DOMAIN Sp THEN q.p \in DOMAIN Sp[q.s].parts ELSE FALSE)
                     THEN [kn EXCEPT !.led = (<<q.s, q.p>> :> Sp[q.s].parts[q.p][Picked(q.s, q.p) + 1]) @@ @, !.picked = (<<q.s, q.p>> :> Picked(q.s, q.p)) @@ @] ELSE kn
            /\ UNCHANGED <<ready, ld, todo, beat, at_>>
=============================================================================
