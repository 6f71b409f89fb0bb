--------------------------- MODULE MetaCallsTrace ---------------------------
EXTENDS MetaCalls, TraceBase
\* the answer each operation got last
VARIABLE got
tv == <<lead, ops, out, got>>
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Dig(d) == SubSeq("0123456789abcdef", d + 1, d + 1)
Hex1(b) == Dig(b \div 16) \o Dig(b % 16)
\* 32 bits, the low byte first; given as its two halves
Hex32(hi, lo) == Hex1(lo % 256) \o Hex1(lo \div 256) \o Hex1(hi % 256) \o Hex1(hi \div 256)
\* default values are kept under the space, the schema and the field
Args == IF Ev.m \in {"getTagDefaultValue", "getEdgeDefaultValue"}
        THEN [segment |-> "\"__default__\"", key |-> "\"x:" \o Hex32(Ev.n[1], Ev.n[2]) \o Hex32(Ev.n[3], Ev.n[4]) \o Ev.hex \o "\""]
        ELSE Ev.a
Req(i) == Request(ops[i].m, ops[i].a)
\* fields the client never sets
Rest(m) == IF m \in {"getConfig", "setConfig"} THEN {"item", "item.mode", "item.type", "item.value"} ELSE {}
Nothing == {"\"\"", "false", "0", "[]"}
CallOK == \E i \in DOMAIN ops : /\ Send(i, Ev.call, Ev.host, Ev.at)
                                /\ Ev.method = Api[ops[i].m][1] /\ Ev.service = "MetaService"
                                /\ DOMAIN Req(i) \subseteq DOMAIN Ev.req /\ \A f \in DOMAIN Req(i) : Ev.req[f] = Req(i)[f]
                                /\ \A f \in DOMAIN Ev.req \ DOMAIN Req(i) : Ev.req[f] \in Nothing \/ f \in Rest(ops[i].m)
                                /\ Ev.timeout = Timeout /\ Ev.running = Ev.evb /\ got' = got
\* the result of a success
ResultOK(m, r) == LET p == Api[m][2] IN
  IF p = "ok" THEN Ev.v = "true"
  ELSE IF p = "" THEN Ev.v = r.all
  ELSE IF m = "listSpaces" THEN Ev.pairs = [k \in 1..Len(r.spaces) |-> <<r.spaces[k].id.space_id, r.spaces[k].name>>]
  ELSE Ev.v = r.f[p]
DoneOK == LET o == ops[Ev.id] IN
  /\ End(Ev.id)
  /\ CASE o.res[1] = "ok" -> Ev.ok /\ ResultOK(o.m, got[Ev.id])
       [] o.res[1] = "told" -> ~Ev.ok /\ Ev.s = o.res[2]
       [] o.res[1] = "rpc" -> ~Ev.ok /\ Starts(Ev.s, "RPC failure in MetaClient: ") /\ Ends(Ev.s, o.res[2])
  /\ got' = Without(got, {Ev.id})
TInit == TraceStart /\ CInit /\ got = <<>>
TNext == \/ Consume("start") /\ Quiet /\ Begin(Ev.id, Ev.m, Args) /\ got' = got
         \/ Consume("call") /\ CallOK
         \/ Consume("answered") /\ Quiet /\ Ev.call \in DOMAIN out /\ Answer(Ev.call, Ev.code, Ev.leader, Ev.at) /\ got' = (out[Ev.call] :> Ev.reply) @@ got
         \/ Consume("failed") /\ Quiet /\ Ev.call \in DOMAIN out /\ Fail(Ev.call, Ev.msg, Ev.at) /\ got' = got
         \/ Consume("done") /\ Ev.id \in DOMAIN ops /\ DoneOK
         \/ Consume("advance") /\ Quiet /\ (Ev.did = \E i \in DOMAIN ops : ops[i].ph = "sleep") /\ UNCHANGED tv
         \/ Consume("end") /\ DOMAIN ops = {} /\ UNCHANGED tv
=============================================================================
