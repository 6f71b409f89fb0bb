----------------------------- MODULE TimesTrace -----------------------------
(* Recorded calls of TimeUtils and Timezone. VF_UNI: the values; VF_TABLE: the regions of the table. *)
EXTENDS Zone, TraceBase
Uni == ndJsonDeserialize(IOEnv.VF_UNI)
Table == ndJsonDeserialize(IOEnv.VF_TABLE)
VARIABLES z,    \* the zone that is read again and again
          g,    \* the zone of the process
          tab   \* is the table loaded
Z0 == [name |-> <<65, 66, 67>>, off |-> 0]
X == Uni[Ev.x]
R == Uni[Ev.r]
Same3 == UNCHANGED <<z, g, tab>>
Refused == Null("BAD_DATA")
\* x is what it should be, or left open
Is(x, good(_)) == IF ~IsOpen(x) THEN (IF IsNull(x) THEN ~Ev.ok ELSE Ev.ok /\ SameV(R, x)) ELSE ~Ev.ok \/ good(R)
GD(r) == r.t = "DATE" /\ GoodDate(r)
GT(r) == r.t = "TIME" /\ GoodTime(r)
GDT(r) == r.t = "DATETIME" /\ GoodDate(r) /\ GoodTime(r)
GS(r) == r.t = "INT" /\ SameV(Stamp(r.n), r)
TextIs == CASE Ev.k = "date" -> Is(DateCall(X), GD) [] Ev.k = "time" -> Is(TimeCall(X, 0), GT) [] OTHER -> Is(DateTimeCall(X, 0), GDT)
Shifted(x, off) == IF x.t = "TIME" THEN MovedTime(x, off) ELSE MovedDT(x, off)
AttrName(x) == CASE x.t = "DATE" -> DateF [] x.t = "TIME" -> TimeF [] OTHER -> DateF \cup TimeF
PartOf(x, f) == CASE f = "year" -> x.y [] f = "month" -> x.mo [] f = "day" -> x.d [] f = "hour" -> x.h [] f = "minute" -> x.mi [] f = "second" -> x.s [] OTHER -> x.us
Attr(x, n) == LET fs == {f \in AttrName(x) : Fields[f] = Lower(n)} IN IF fs = {} THEN Null("UNKNOWN_PROP") ELSE IntOf(Bg(PartOf(x, CHOOSE f \in fs : TRUE)))
\* now: between before and after, shifted for local ones
NowIs(off, lo, hi) ==
  CASE R.t = "DATE" -> GoodDate(R) /\ NowIn(SecsOf(DateDay(R), 86399), BAdd(lo, Bg(off)), BAdd(hi, Bg(off + 86399))) /\ NowIn(SecsOf(DateDay(R), 0), BSub(BAdd(lo, Bg(off)), Bg(86399)), BAdd(hi, Bg(off)))
    [] R.t = "DATETIME" -> GDT(R) /\ NowIn(SecsOf(DateDay(R), SecOf(R.h, R.mi, R.s)), BAdd(lo, Bg(off)), BAdd(hi, Bg(off)))
    [] R.t = "TIME" -> GT(R) /\ LET a == (Ev.s0 + off) % 86400 IN ((SecOf(R.h, R.mi, R.s) - a) % 86400) <= (Ev.d1 - Ev.d0) * 86400 + Ev.s1 - Ev.s0
    [] OTHER -> FALSE
\* what a text for a zone must do; old: the zone before
ReadZone(c, old, ok, got) ==
  LET w == ZoneOf(c) IN
  CASE w.k = "no" -> ~ok /\ got = old
    [] w.k = "zone" -> ok /\ got = [name |-> w.name, off |-> w.off]
    [] OTHER -> IF ok THEN got.off >= -12 * 3600 /\ got.off <= 14 * 3600 ELSE got = old
Got == [name |-> Ev.name, off |-> Ev.off]
HasTable == Ev.file
\* the text in force: the configured one, or that of the environment
Text == IF Ev.c # <<>> THEN Ev.c ELSE IF Ev.set THEN Ev.env ELSE <<>>
GlobalIs ==
  IF Text = <<>> THEN ~Ev.ok
  ELSE IF Text[1] = 58 THEN Ev.ok = (HasTable /\ InTable(Table, Tail(Text))) /\ (Ev.ok => Got = [name |-> RowOf(Table, Tail(Text)).name, off |-> RowOf(Table, Tail(Text)).off])
  ELSE LET w == ZoneOf(Text) IN CASE w.k = "no" -> ~Ev.ok [] w.k = "zone" -> Ev.ok /\ Got = [name |-> w.name, off |-> w.off] [] OTHER -> Ev.ok => (Got.off >= -12 * 3600 /\ Got.off <= 14 * 3600)
TInit == TraceStart /\ z = Z0 /\ g = Z0 /\ tab = FALSE
TNext ==
  \/ Consume("parse") /\ TextIs /\ Same3
  \/ Consume("map") /\ TextIs /\ Same3
  \/ Consume("stamp") /\ Is(StampCall(X), GS) /\ Same3
  \/ Consume("shift") /\ SameV(R, Shifted(X, IF Ev.to = "utc" THEN -g.off ELSE g.off)) /\ Same3
  \/ Consume("attr") /\ SameV(R, Attr(X, Ev.n)) /\ Same3
  \/ Consume("valid") /\ Ev.ok = (X.d <= MonthLen(X.y, X.mo)) /\ Same3
  \/ Consume("now") /\ R.t = Ev.t /\ NowIs(IF Ev.of = "utc" THEN 0 ELSE g.off, SecsOf(Ev.d0, Ev.s0), SecsOf(Ev.d1, Ev.s1)) /\ Same3
  \/ Consume("zone") /\ (IF Ev.dst THEN LET w == ZoneOf(Summer(Ev.c)) IN Ev.ok /\ w.k = "zone" /\ Got = [name |-> w.name, off |-> w.off] ELSE ReadZone(Ev.c, z, Ev.ok, Got)) /\ z' = Got /\ UNCHANGED <<g, tab>>
  \/ Consume("table") /\ Ev.ok = HasTable /\ tab' = (tab \/ Ev.ok) /\ UNCHANGED <<z, g>>
  \/ Consume("region") /\ Ev.ok = (tab /\ InTable(Table, Ev.c)) /\ (Ev.ok => Got = [name |-> RowOf(Table, Ev.c).name, off |-> RowOf(Table, Ev.c).off]) /\ Same3
  \/ Consume("global") /\ GlobalIs /\ g' = Got /\ tab' = (tab \/ (HasTable /\ Text # <<>> /\ Text[1] = 58)) /\ z' = z
=============================================================================
