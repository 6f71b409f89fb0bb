------------------------------ MODULE Calendar ------------------------------
(* The proleptic Gregorian calendar.  Day 0 is 1970-01-01; a point in time is a
   day and a second of the day (TLC's integers have 32 bits). *)
EXTENDS Integers, Sequences, TLC
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30
                    [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
YearLen(y) == IF Leap(y) THEN 366 ELSE 365
Valid(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m)
\* closed forms (\div rounds down)
LeapsThrough(y) == y \div 4 - y \div 100 + y \div 400
CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
Before(y, m) == CumDays[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
YearStart(y) == 365 * (y - 1970) + LeapsThrough(y - 1) - LeapsThrough(1969)
DayNum(y, m, d) == YearStart(y) + Before(y, m) + d - 1
DaySec == 86400
SecOf(h, mi, s) == h * 3600 + mi * 60 + s
ValidTime(h, mi, s) == h \in 0..23 /\ mi \in 0..59 /\ s \in 0..59
\* (day, sec) moved by off = [d, s]
Move(p, off) == LET s == p.s + off.s IN [d |-> p.d + off.d + s \div DaySec, s |-> s % DaySec]
Point(t) == [d |-> DayNum(t.y, t.mo, t.d), s |-> SecOf(t.h, t.mi, t.s)]
IsPoint(t, p) == Valid(t.y, t.mo, t.d) /\ ValidTime(t.h, t.mi, t.s) /\ Point(t) = p
Diff(p, q) == LET s == p.s - q.s IN [d |-> p.d - q.d + s \div DaySec, s |-> s % DaySec]
=============================================================================
