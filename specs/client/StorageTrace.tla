---------------------------- MODULE StorageTrace ----------------------------
EXTENDS Storage, TraceBase
VARIABLES names,  \* what the names of hosts resolve to
          want    \* of each operation, the fields its calls have
tv == <<vars, names, want>>
Hosts(q) == [k \in 1..Len(q) |-> q[k]]
Addr(h) == [h EXCEPT !.h = Get(names, @, @)]
Spaces == [i \in {x.id : x \in Range(Ev.spaces)} |-> LET x == CHOOSE y \in Range(Ev.spaces) : y.id = i IN [hosts |-> x.hosts, vid |-> x.vid]]
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Nothing == {"\"\"", "false", "0", "[]"}
\* no filter and no order are not sent
Left(f) == f \in {"filter", "traverse_spec.filter", "condition", "order_by", "traverse_spec.order_by"}
Fields(f) == LET D == {k \in DOMAIN f : ~(Left(k) /\ f[k] \in Nothing)} IN [k \in D |-> f[k]]
SameParts(r, q) == /\ {x.p : x \in Range(q)} = DOMAIN r /\ Len(q) = Cardinality(DOMAIN r)
                   /\ \A k \in 1..Len(q) : r[q[k].p] = q[k].items
CallOK == \E i \in DOMAIN ops : \E r \in ops[i].todo :
  /\ Addr(r.host) = Ev.host /\ Ev.service = Api[ops[i].m][1] /\ Ev.method = Api[ops[i].m][3] /\ Ev.s = ops[i].s
  /\ SameParts(r.parts, Ev.parts)
  /\ DOMAIN want[i] \subseteq DOMAIN Ev.f /\ \A k \in DOMAIN want[i] : Ev.f[k] = want[i][k]
  /\ \A k \in DOMAIN Ev.f \ DOMAIN want[i] : Ev.f[k] \in Nothing
  /\ Ev.timeout = Timeout /\ Ev.running = Ev.evb
  /\ Send(i, r, Ev.call, Ev.evb, Ev.sock)
\* the calls of scattered operations wait for each other
DoneOK == LET o == ops[Ev.id] IN
  /\ End(Ev.id)
  /\ IF Kind(o.m) \in Many
     THEN IF o.res[1] = "told" THEN ~Ev.ok /\ Ends(Ev.x, o.res[2])
          ELSE /\ Ev.ok /\ Ev.succeeded = (o.bad = 0) /\ (o.total > 0 => Ev.completeness = Completeness(o)) /\ Ev.max = o.max
               /\ {x.p : x \in Range(Ev.failed)} = DOMAIN o.failed /\ \A x \in Range(Ev.failed) : x.code = o.failed[x.p]
               /\ Ev.responses = o.resps /\ Len(Ev.lat) = Len(o.lat) /\ \A k \in 1..Len(Ev.lat) : Ev.lat[k].host = o.lat[k][1] /\ Ev.lat[k].t = o.lat[k][2]
     ELSE IF Kind(o.m) = "txn" THEN Ev.ok /\ Ev.v = (CASE o.res[1] \in {"told", "code"} -> o.res[2] [] o.res[1] = "rpc" -> "E_UNKNOWN" [] o.res[1] = "ok" -> "SUCCEEDED")
     ELSE IF Kind(o.m) = "value" THEN Ev.ok /\ Ev.right = (o.res[1] = "ok") /\ Ev.v = (CASE o.res[1] \in {"told", "code", "ok"} -> o.res[2] [] o.res[1] = "rpc" -> "E_UNKNOWN")
     ELSE CASE o.res[1] = "told" -> ~Ev.ok /\ Ev.x = o.res[2]
            [] o.res[1] = "ok" -> Ev.ok /\ Ev.v = o.resps[1]
            [] o.res[1] = "rpc" -> ~Ev.ok /\ Starts(Ev.x, "RPC failure in StorageClient: ") /\ Ends(Ev.x, o.res[2])
TInit == TraceStart /\ SInit /\ names = <<>> /\ want = <<>>
Rest == UNCHANGED <<names, want>>
TNext == \/ Consume("new") /\ names' = [k \in {x[1] : x \in Range(Ev.names)} |-> (CHOOSE x \in Range(Ev.names) : x[1] = k)[2]] /\ UNCHANGED <<vars, want>>
         \/ Consume("load") /\ Quiet /\ Load(Spaces, Range(Ev.leaders)) /\ Rest
         \/ Consume("start") /\ Quiet /\ Begin(Ev.id, Ev.m, Ev.s, Ev.o, Ev.evb) /\ want' = (Ev.id :> Fields(Ev.f)) @@ want /\ names' = names
         \/ Consume("started") /\ (IF Ev.id \in DOMAIN ops THEN Started(Ev.id) ELSE UNCHANGED vars) /\ Rest
         \/ Consume("call") /\ CallOK /\ Rest
         \/ Consume("answered") /\ Quiet /\ Ev.call \in DOMAIN out /\ Answer(Ev.call, Ev.fs, Ev.lat, Ev.all, Ev.val) /\ Rest
         \/ Consume("failed") /\ Quiet /\ Ev.call \in DOMAIN out /\ Fail(Ev.call, Ev.msg) /\ Rest
         \/ Consume("slept") /\ (\E i \in DOMAIN ops : Wake(i, Ev.ms)) /\ Rest
         \/ Consume("done") /\ Ev.id \in DOMAIN ops /\ DoneOK /\ Rest
         \/ Consume("break") /\ Quiet /\ Break(Ev.sock) /\ Rest
         \/ Consume("place") /\ Ev.v = PartOf(Ev.k, Ev.n) /\ UNCHANGED tv
         \/ Consume("end") /\ Quiet /\ DOMAIN ops = {} /\ UNCHANGED tv
=============================================================================
