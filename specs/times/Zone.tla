-------------------------------- MODULE Zone --------------------------------
(* Time zones by their text "std offset ..." or by a region of a table. *)
EXTENDS Fun
Alpha(b) == b \in 65..90 \/ b \in 97..122
RECURSIVE NameLen(_, _)
NameLen(c, i) == IF i <= Len(c) /\ Alpha(c[i]) THEN NameLen(c, i + 1) ELSE i - 1
\* hh, hh:mm or hh:mm:ss
RECURSIVE OffLen(_, _)
OffLen(c, i) == IF i <= Len(c) /\ ~Alpha(c[i]) /\ c[i] # 44 THEN OffLen(c, i + 1) ELSE i - 1
IsOff(o) == /\ Len(o) \in {2, 5, 8} /\ Dig(o, <<1, 2>>)
            /\ (Len(o) >= 5 => o[3] = 58 /\ Dig(o, <<4, 5>>)) /\ (Len(o) = 8 => o[6] = 58 /\ Dig(o, <<7, 8>>))
OffOf(o) == Num2(o, 1) * 3600 + (IF Len(o) >= 5 THEN Num2(o, 4) * 60 ELSE 0) + (IF Len(o) = 8 THEN Num2(o, 7) ELSE 0)
OffOK(o) == (Len(o) < 5 \/ Num2(o, 4) < 60) /\ (Len(o) < 8 \/ Num2(o, 7) < 60)
\* what a text stands for: "no" (refused), "open" or a zone
ZoneOf(c) ==
  LET n == NameLen(c, 1) e == OffLen(c, n + 1) o == SubSeq(c, n + 1, e) rest == SubSeq(c, e + 1, Len(c))
      signed == o # <<>> /\ o[1] \in {43, 45} u == IF signed THEN SubSeq(o, 2, Len(o)) ELSE o
      s == IF signed /\ o[1] = 45 THEN -OffOf(u) ELSE OffOf(u)
  IN IF c = <<>> THEN [k |-> "no"]
     ELSE IF n = 0 /\ \A i \in 1..Len(c) : c[i] \in 48..57 THEN (IF Len(c) > 2 THEN [k |-> "no"] ELSE [k |-> "open"])
     ELSE IF n < 3 \/ ~IsOff(u) \/ ~OffOK(u) \/ rest # <<>> THEN [k |-> "open", n |-> n]
     ELSE IF s < -12 * 3600 \/ s > 14 * 3600 THEN [k |-> "no"]
     ELSE [k |-> "zone", name |-> SubSeq(c, 1, n), off |-> s]
\* a zone with summer time: its standard time counts
Summer(c) == LET i == CHOOSE i \in 1..Len(c) + 1 : (i = Len(c) + 1 \/ (i > 4 /\ Alpha(c[i]) /\ ~Alpha(c[i - 1]))) /\ \A j \in 5..i - 1 : ~(Alpha(c[j]) /\ ~Alpha(c[j - 1])) IN SubSeq(c, 1, i - 1)
\* the table: regions with [id, name, off]
InTable(tab, id) == \E i \in 1..Len(tab) : tab[i].id = id
RowOf(tab, id) == tab[CHOOSE i \in 1..Len(tab) : tab[i].id = id]
=============================================================================
