------------------------------ MODULE ClockMC ------------------------------
(* Design check over a few instants: a paused watch stands still, a running one
   runs with time, pausing and resuming change no reading, resets start from zero. *)
EXTENDS Clock
CONSTANTS MaxS, Steps
Init == ClockInit
Next == \/ now.s <= MaxS /\ \E d \in Steps : Tick(d)
        \/ \E n \in {"a"} : \/ \E p \in BOOLEAN : Reset(n, p)
                            \/ watch[n].on /\ (Pause(n) \/ Resume(n))
        \/ watch["a"].on /\ Copy("b", "a")
Bounded == \A n \in Names : watch[n].on => ~Lt(now, Elapsed(n)) /\ ~Lt(Elapsed(n), Z)
Old(n) == Elapsed(n)
Steady == [][\A n \in Names : watch[n].on /\ watch'[n].on =>
               \/ Elapsed(n)' = Old(n)                                         \* nothing but time and resets changes a reading
               \/ now' # now /\ ~watch[n].paused /\ Elapsed(n)' = Plus(Old(n), Minus(now', now))
               \/ now' = now /\ (Elapsed(n)' = Z \/ n = "b")]_vars
St == {[s |-> 0, u |-> 600000], [s |-> 1, u |-> 0]}
=============================================================================
