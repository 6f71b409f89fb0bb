------------------------------ MODULE CacheMC ------------------------------
(* Loading by itself: one host's listener, a space of one part that moves, comes and goes, calls that fail. *)
EXTENDS Cache
CONSTANT Most
VARIABLES loads, sub   \* loads begun; what a subscriber has put together from what it was told
mv == <<cv, loads, sub>>
Me == "me"
Reply(c) == CASE c.m = "listUsers" -> {<<[n |-> "u", p |-> "1"]>>} [] c.m = "getUserRoles" -> {"r"} [] c.m \in {"listFTClients", "listFTIndexes", "listTags", "listEdges", "listTagIndexes", "listEdgeIndexes"} -> {<<>>}
  [] c.m = "listSpaces" -> {<<>>, <<[k |-> "1", id |-> 1, n |-> "a"]>>}
  [] c.m = "listHosts" -> {<<[h |-> "other", l |-> <<[n |-> "a", ps |-> <<1>>]>>]>>}
  [] c.m = "getPartsAlloc" -> {[parts |-> <<[k |-> 1, v |-> q]>>, terms |-> <<>>] : q \in {<<"other">>, <<"me">>, <<"other", "me">>}}
  [] c.m = "listListener" -> {<<>>, <<[h |-> "me", p |-> 1, ty |-> "E"]>>} [] c.m = "getSpace" -> {[name |-> "a", t |-> "", vid |-> "INT64", len |-> 8, iso |-> ""]}
MInit == CInit /\ loads = 0 /\ sub = [spaces |-> {}, parts |-> {}, ls |-> {}]
Apply(e) == CASE e.m = "SpaceAdded" -> [sub EXCEPT !.spaces = @ \cup {<<e.s, e.b>>}]
              [] e.m = "SpaceRemoved" -> [sub EXCEPT !.spaces = @ \ {<<e.s, e.b>>}]
              [] e.m \in {"PartAdded", "PartUpdated"} -> [sub EXCEPT !.parts = {x \in @ : x.s # e.s \/ x.p # e.p} \cup {[s |-> e.s, p |-> e.p, hs |-> e.hs]}]
              [] e.m = "PartRemoved" -> [sub EXCEPT !.parts = {x \in @ : x.s # e.s \/ x.p # e.p}]
              [] e.m = "ListenerAdded" -> [sub EXCEPT !.ls = {x \in @ : x.s # e.s \/ x.p # e.p \/ x.ty # e.ty} \cup {[s |-> e.s, p |-> e.p, ty |-> e.ty, hs |-> e.hs]}]
              [] e.m = "ListenerRemoved" -> [sub EXCEPT !.ls = {x \in @ : x.s # e.s \/ x.p # e.p \/ x.ty # e.ty}]
              [] OTHER -> sub
MNext == \/ loads < Most /\ \E w \in {<<"ready", 0>>, <<"refresh", 0>>, <<"wait", 1>>} : Do(w[1], w[2]) /\ loads' = loads + 1 /\ sub' = sub
         \/ loads < Most /\ at_.next = "beat" /\ Beat(0) /\ UNCHANGED <<loads, sub>>
         \/ Idle /\ beat.on /\ loads < Most /\ Beat(beat.lo) /\ loads' = loads + 1 /\ sub' = sub
         \/ at_.next = "beat" /\ Beat(0) /\ UNCHANGED <<loads, sub>>
         \/ (\E h \in {"ok", "moved", ""}, t \in {1, 2} : Beaten(h, t, 0, 10)) /\ UNCHANGED <<loads, sub>>
         \/ ld.on /\ Len(ld.pend) = 0 /\ LET c == CHOOSE x \in Needs(ld.got) \ DOMAIN ld.got : TRUE IN Asks(1, c.m, c.k) /\ UNCHANGED <<loads, sub>>
         \/ ld.on /\ Len(ld.pend) > 0 /\ LET c == ld.pend[1] IN (Fails(c.m, c.k, 0, 10) \/ \E r \in Reply(c) : Answers(c.m, c.k, r, Me, 0, 10)) /\ UNCHANGED <<loads, sub>>
         \/ \E e \in todo : Tell(e) /\ sub' = Apply(e) /\ loads' = loads
         \/ (\E v \in BOOLEAN : Returns(v, 0, 10, FALSE)) /\ UNCHANGED <<loads, sub>>
         \/ Again(2, 2, FALSE) /\ UNCHANGED <<loads, sub>>
\* whoever follows what is told knows the host's parts and listeners
Follow == todo = {} => /\ sub.parts = Mine(kn.spaces, Me) /\ sub.ls = Follows(kn.spaces, Me)
                       /\ sub.spaces = {<<x.s, FALSE>> : x \in sub.parts} \cup {<<x.s, TRUE>> : x \in sub.ls}
\* something is always to be told first
Tellable == todo # {} => \E e \in todo : \A x \in todo : ~Before(x, e)
Loaded == ready => kn.pass # <<>>
\* what is known of the spaces changes only as a whole
Whole_ == [][kn'.spaces # kn.spaces => ~ld'.on /\ ld.on]_mv
\* nobody waits without something to happen
Live == at_.who # "" => ENABLED MNext
=============================================================================
