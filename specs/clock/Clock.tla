------------------------------- MODULE Clock -------------------------------
(* Stop-watches, the fast and the slow wall clock and slow-operation trackers
   over one notion of time.  A time or duration is [s |-> seconds, u |-> microseconds].
   `now` is the time since the process started reading the clock, `wall0` the
   wall-clock time then.  A watch runs or is paused and has accumulated time. *)
EXTENDS Integers, Sequences, TLC
VARIABLES now, wall0, watch, track
vars == <<now, wall0, watch, track>>
M == 1000000
Names == {"a", "b", "c"}
Z == [s |-> 0, u |-> 0]
Plus(x, y)  == LET u == x.u + y.u IN [s |-> x.s + y.s + u \div M, u |-> u % M]
Minus(x, y) == LET u == x.u - y.u IN [s |-> x.s - y.s + u \div M, u |-> u % M]
Lt(x, y)    == x.s < y.s \/ (x.s = y.s /\ x.u < y.u)
\* difference of two near times in microseconds; 10^9 if they are far apart
Diff(x, y)  == LET d == Minus(x, y) IN IF d.s > 900 \/ d.s < -900 THEN 1000000000 ELSE d.s * M + d.u
Wall == Plus(wall0, now)

\* The tick counter is calibrated against the clock to one microsecond, 10 ms
\* after the start and every two seconds; how far a converted duration e may be off
Tol(e) == IF now.s < 3 THEN 4 + (e.u \div 9000) + 112 * e.s ELSE 4 + e.s

ClockInit == now = Z /\ wall0 = Z /\ watch = [n \in Names |-> [on |-> FALSE, paused |-> TRUE, acc |-> Z, since |-> Z]]
             /\ track = [n \in Names |-> [on |-> FALSE, since |-> Z]]
Start(w)  == wall0' = w /\ UNCHANGED <<now, watch, track>>
Tick(d)   == now' = Plus(now, d) /\ UNCHANGED <<wall0, watch, track>>

Reset(n, p) == watch' = [watch EXCEPT ![n] = [on |-> TRUE, paused |-> p, acc |-> Z, since |-> now]] /\ UNCHANGED <<now, wall0, track>>
Elapsed(n)  == IF watch[n].paused THEN watch[n].acc ELSE Plus(watch[n].acc, Minus(now, watch[n].since))
Pause(n)    == watch' = [watch EXCEPT ![n].acc = Elapsed(n), ![n].paused = TRUE] /\ UNCHANGED <<now, wall0, track>>
Resume(n)   == watch' = (IF watch[n].paused THEN [watch EXCEPT ![n].paused = FALSE, ![n].since = now] ELSE watch)
               /\ UNCHANGED <<now, wall0, track>>
Copy(d, n)  == watch' = [watch EXCEPT ![d] = watch[n]] /\ UNCHANGED <<now, wall0, track>>

\* seconds and milliseconds are rounded to the nearest, microseconds cut off
SecOk(r, e)  == LET d == Diff([s |-> r, u |-> 0], e) IN d <= M \div 2 + Tol(e) /\ d >= -(M \div 2) - Tol(e)
MsecOk(r, e) == LET d == Diff([s |-> r.s, u |-> r.x * 1000], e) IN d <= 500 + Tol(e) /\ d >= -500 - Tol(e)
UsecOk(r, e) == LET d == Diff([s |-> r.s, u |-> r.x], e) IN d <= Tol(e) /\ d >= -1 - Tol(e)
\* readings taken at one moment agree with each other to their units, however long the watch ran
Agree(r) == LET us == [s |-> r.usec.s, u |-> r.usec.x]
                ms == Diff([s |-> r.msec.s, u |-> r.msec.x * 1000], us)
                sc == Diff([s |-> r.sec, u |-> 0], us)
            IN ms <= 501 /\ ms >= -501 /\ sc <= M \div 2 + 1 /\ sc >= -(M \div 2) - 1
ReadWatch(n, r) == /\ Agree(r)
                   /\ r.paused = watch[n].paused
                   /\ SecOk(r.sec, Elapsed(n)) /\ MsecOk(r.msec, Elapsed(n)) /\ UsecOk(r.usec, Elapsed(n))

\* the slow clock is exact to its unit, the fast one within one unit of it
SlowOk(r) == r.sec = Wall.s /\ r.msec = [s |-> Wall.s, x |-> Wall.u \div 1000] /\ r.usec = [s |-> Wall.s, x |-> Wall.u]
Near(a, unit) == LET d == Diff(a, Wall) IN d <= unit + Tol(now) /\ d >= -(2 * unit) - Tol(now)
FastOk(r) == /\ LET us == [s |-> r.usec.s, u |-> r.usec.x]
                    ms == Diff([s |-> r.msec.s, u |-> r.msec.x * 1000], us)
                    sc == Diff([s |-> r.sec, u |-> 0], us)
                IN ms <= 502 /\ ms >= -1502 /\ sc <= M \div 2 + 1 /\ sc >= -(M + M \div 2) - 2
             /\ Near([s |-> r.sec, u |-> 0], M)
             /\ Near([s |-> r.msec.s, u |-> r.msec.x * 1000], 1000)
             /\ Near([s |-> r.usec.s, u |-> r.usec.x], 1)

\* an operation is slow if it took longer than the threshold (0 or less: the default one)
NewTrack(n) == track' = [track EXCEPT ![n] = [on |-> TRUE, since |-> now]] /\ UNCHANGED <<now, wall0, watch>>
Limit(thr, dflt) == IF thr > 0 THEN thr ELSE dflt
\* the duration is known to a millisecond (two roundings)
Slow(n, thr, dflt, res, dur) ==
    LET e == IF Lt(now, track[n].since) THEN Z ELSE Minus(now, track[n].since)
        slack == 1000 + 2 * Tol(now)
        lim == [s |-> Limit(thr, dflt) \div 1000, u |-> (Limit(thr, dflt) % 1000) * 1000]
        d   == Diff([s |-> dur.s, u |-> dur.x * 1000], e)
    IN /\ d <= slack /\ d >= -slack
       /\ res = Lt(lim, [s |-> dur.s, u |-> dur.x * 1000])
\* the tick counter falls back (a thread moved to another processor): a tracker never
\* reports a negative duration
Warp(d) == track' = [n \in Names |-> [track[n] EXCEPT !.since = Plus(@, d)]] /\ UNCHANGED <<now, wall0, watch>>
Same == UNCHANGED vars
=============================================================================
