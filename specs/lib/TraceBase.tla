----------------------------- MODULE TraceBase -----------------------------
(* Batch validation of recorded traces.  VF_TRACES names a file with one record
   {"t": <<events>>} per line.  ti is the trace being explained, l the number of
   its events explained so far; register ti keeps the furthest l reached. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES ti, l
TraceStart == ti \in 1..Len(Traces) /\ l = 0 /\ TLCSet(ti, 0)
More == l < Len(Traces[ti].t)
Ev == Traces[ti].t[l + 1]
Consume(op) == More /\ Ev.op = op /\ l' = l + 1 /\ ti' = ti
Silent == l' = l /\ ti' = ti
Mark == IF l > TLCGet(ti) THEN TLCSet(ti, l) ELSE TRUE
Report == PrintT("@R " \o ToJson([i \in 1..Len(Traces) |-> TLCGet(i)]))
\* a trace explained to its end needs no further search
Open == TLCGet(ti) < Len(Traces[ti].t)
=============================================================================
