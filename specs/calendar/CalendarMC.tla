----------------------------- MODULE CalendarMC -----------------------------
(* A calendar that is turned day by day: the closed forms of Calendar agree with
   counting, over more than a full cycle of the calendar and across year 0. *)
EXTENDS Calendar
CONSTANT First
La(x) == IF x < 500 THEN 5 ELSE 2003
VARIABLES y, m, d, n
vars == <<y, m, d, n>>
Init == \E f \in First : y = f /\ m = 1 /\ d = 1 /\ n = YearStart(f)
Next == /\ y <= La(y)
        /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
        /\ n' = n + 1
Agree == n = DayNum(y, m, d) /\ Valid(y, m, d)
Epoch == (n = 0) = (y = 1970 /\ m = 1 /\ d = 1)
Fs == {-5, 1598}
=============================================================================
