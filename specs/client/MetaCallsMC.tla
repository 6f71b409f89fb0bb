---------------------------- MODULE MetaCallsMC ----------------------------
(* The contract by itself: two operations, an adverse network, leaders that move. *)
EXTENDS MetaCalls
VARIABLES now, made     \* made: the calls each operation made
mv == <<lead, ops, out, now, made>>
Ids == {1, 2}
MInit == CInit /\ now = 0 /\ made = [i \in Ids |-> 0]
Fresh == CHOOSE c \in 1..20 : c \notin DOMAIN out /\ \A d \in DOMAIN out : d < c
MNext == \/ \E i \in Ids : made[i] = 0 /\ Begin(i, "listZones", <<>>) /\ UNCHANGED <<now, made>>
         \/ \E i \in DOMAIN ops, h \in Addrs \cup {"other"} : Send(i, Fresh, h, now) /\ made' = [made EXCEPT ![i] = @ + 1] /\ now' = now
         \/ \E c \in DOMAIN out : (Fail(c, "x", now) \/ \E k \in {"SUCCEEDED", "E_LEADER_CHANGED", "E_EXISTED"}, h \in Addrs \cup {"", "other"} : Answer(c, k, h, now)) /\ UNCHANGED <<now, made>>
         \/ \E i \in DOMAIN ops : End(i) /\ UNCHANGED <<now, made>>
         \/ Quiet /\ (\E i \in DOMAIN ops : ops[i].ph = "sleep" /\ ops[i].due > now /\ now' = ops[i].due) /\ UNCHANGED <<lead, ops, out, made>>
TypeOK == /\ lead \subseteq Addrs \cup {"other"} /\ lead # {}
          /\ \A c \in DOMAIN out : out[c] \in DOMAIN ops /\ ops[out[c]].ph = "wait"
          /\ \A i \in DOMAIN ops : (ops[i].ph = "wait") = (Cardinality({c \in DOMAIN out : out[c] = i}) = 1)
\* never more calls than the limit allows
Bounded == \A i \in Ids : made[i] <= Limit + 1
\* every operation that begins ends, if calls are answered
Live == WF_mv(MNext) 
Spec == MInit /\ [][MNext]_mv /\ Live
Ends == \A i \in Ids : (i \in DOMAIN ops) ~> (i \notin DOMAIN ops)
Short == now <= Pause * 4
=============================================================================
