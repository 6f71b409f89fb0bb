--------------------------- MODULE CalendarTrace ---------------------------
EXTENDS Calendar, TraceBase
TInit == TraceStart
\* Date's own day numbers: day 0 is -32768-01-01 and every fourth year is a leap year
\* (as DateTest fixes it; Calendar disagrees at most century years, see KNOWN_FINDINGS)
DLeap(y) == y % 4 = 0
DMonthLen(y, m) == IF m = 2 THEN (IF DLeap(y) THEN 29 ELSE 28) ELSE MonthLen(y, m)
DYearStart(y) == 365 * (y + 32768) + ((y + 32768 + 3) \div 4)
DDayNum(t) == DYearStart(t.y) + CumDays[t.mo] + (IF t.mo > 2 /\ DLeap(t.y) THEN 1 ELSE 0) + t.d - 1
DValid(t) == t.mo \in 1..12 /\ t.d >= 1 /\ t.d <= DMonthLen(t.y, t.mo)
\* decimal text
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
RECURSIVE Pad(_, _)
Pad(s, w) == IF Len(s) >= w THEN s ELSE Pad(<<48>> \o s, w)
SDec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE Dec(n)
Two(n) == Pad(Dec(n), 2)
DateText(t) == SDec(t.y) \o <<45>> \o Two(t.mo) \o <<45>> \o Two(t.d)
HmsText(t)  == Two(t.h) \o <<58>> \o Two(t.mi) \o <<58>> \o Two(t.s)
Lens(y) == [m \in 1..12 |-> MonthLen(y, m)]
TNext == \* all days of a year, converted one by one and back
         \/ Consume("year") /\ Ev.d0 = YearStart(Ev.y) /\ Ev.lens = Lens(Ev.y) /\ Ev.rt /\ Ev.leap = Leap(Ev.y)
         \/ Consume("toUnix") /\ Ev.res = Point(Ev.t)
         \/ Consume("fromUnix") /\ IsPoint(Ev.res, Ev.p) /\ Ev.us = 0
         \/ Consume("diff") /\ Ev.res = Diff(Point(Ev.t), Point(Ev.t2))
         \/ Consume("shift") /\ IsPoint(Ev.res, Move(Point(Ev.t), Ev.off)) /\ Ev.us2 = Ev.us
         \/ Consume("dateShift") /\ LET p == Move([d |-> DayNum(Ev.t.y, Ev.t.mo, Ev.t.d), s |-> 0], Ev.off)
                                    IN Valid(Ev.res.y, Ev.res.mo, Ev.res.d) /\ DayNum(Ev.res.y, Ev.res.mo, Ev.res.d) = p.d
         \/ Consume("timeShift") /\ ValidTime(Ev.res.h, Ev.res.mi, Ev.res.s) /\ Ev.us2 = Ev.us
                                 /\ SecOf(Ev.res.h, Ev.res.mi, Ev.res.s) = Move([d |-> 0, s |-> SecOf(Ev.t.h, Ev.t.mi, Ev.t.s)], Ev.off).s
         \/ Consume("timeSec") /\ Ev.res = SecOf(Ev.t.h, Ev.t.mi, Ev.t.s)
         \/ Consume("secTime") /\ ValidTime(Ev.res.h, Ev.res.mi, Ev.res.s) /\ SecOf(Ev.res.h, Ev.res.mi, Ev.res.s) = Ev.p.s /\ Ev.us = 0
         \/ Consume("dyear") /\ Ev.d0 = DYearStart(Ev.y) /\ Ev.lens = [m \in 1..12 |-> DMonthLen(Ev.y, m)] /\ Ev.rt
         \/ Consume("toInt") /\ Ev.res = DDayNum(Ev.t)
         \/ Consume("fromInt") /\ DValid(Ev.res) /\ DDayNum(Ev.res) = Ev.n /\ Ev.same
         \/ Consume("plus") /\ DValid(Ev.res) /\ DDayNum(Ev.res) = DDayNum(Ev.t) + Ev.n
         \/ Consume("minus") /\ DValid(Ev.res) /\ DDayNum(Ev.res) = DDayNum(Ev.t) - Ev.n
         \/ Consume("text") /\ Ev.date = DateText(Ev.t) /\ Ev.time = HmsText(Ev.t) \o <<46>> \o Pad(Dec(Ev.us), 6)
                            /\ Ev.datetime = DateText(Ev.t) \o <<84>> \o HmsText(Ev.t) \o <<46>> \o Dec(Ev.us)
                            /\ Ev.stream
         \/ Consume("hash") /\ (Ev.deq => Ev.dh) /\ (Ev.teq => Ev.th) /\ (Ev.eq => Ev.h)
                            /\ Ev.eq = (Ev.t = Ev.t2 /\ Ev.us = Ev.us2)
         \* parts of a date or time read back as they were put in; order is chronological
         \/ Consume("cmp") /\ Ev.lt = (IF Point(Ev.t) = Point(Ev.t2) THEN Ev.us < Ev.us2
                                       ELSE \/ Point(Ev.t).d < Point(Ev.t2).d
                                            \/ Point(Ev.t).d = Point(Ev.t2).d /\ Point(Ev.t).s < Point(Ev.t2).s)
                           /\ Ev.eq = (Point(Ev.t) = Point(Ev.t2) /\ Ev.us = Ev.us2)
                           /\ Ev.back = Ev.t /\ Ev.backus = Ev.us
                           /\ Ev.dlt = (DayNum(Ev.t.y, Ev.t.mo, Ev.t.d) < DayNum(Ev.t2.y, Ev.t2.mo, Ev.t2.d))
                           /\ Ev.deq = (DayNum(Ev.t.y, Ev.t.mo, Ev.t.d) = DayNum(Ev.t2.y, Ev.t2.mo, Ev.t2.d))
                           /\ LET a == SecOf(Ev.t.h, Ev.t.mi, Ev.t.s) b == SecOf(Ev.t2.h, Ev.t2.mi, Ev.t2.s)
                              IN Ev.tlt = (a < b \/ (a = b /\ Ev.us < Ev.us2)) /\ Ev.teq = (a = b /\ Ev.us = Ev.us2)
=============================================================================
