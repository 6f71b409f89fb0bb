------------------------------ MODULE Response ------------------------------
(* The response records graphd hands to its clients.  A record is a function from
   its field names to small value indices, 0 being the value of a fresh record.
   Two records are equal exactly if all their fields are; clearing gives a fresh
   record; a record only changes where it is set.  Error codes have one number and
   one name each, the ones the interface definition gives them. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Fields              \* record type -> set of its fields
VARIABLES rec
Objs == {"x", "y"}
Fresh(t) == [f \in Fields[t] |-> 0]
RInit == \E t \in DOMAIN Fields : rec = [o \in Objs |-> [t |-> t, v |-> Fresh(t)]]
Start(t) == rec' = [o \in Objs |-> [t |-> t, v |-> Fresh(t)]]
SetField(o, f, v) == f \in Fields[rec[o].t] /\ rec' = [rec EXCEPT ![o].v[f] = v]
Clear(o) == rec' = [rec EXCEPT ![o].v = Fresh(rec[o].t)]
Equal == rec["x"].v = rec["y"].v
=============================================================================
