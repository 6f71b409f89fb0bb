----------------------------- MODULE CodesTrace -----------------------------
(* Every error code the code knows, as it prints it, against the interface
   definition (name -> number). *)
EXTENDS Naturals, Integers, Sequences, TraceBase
VARIABLE seen
TInit == TraceStart /\ seen = {}
TNext == Consume("code") /\ Ev.num \notin seen /\ Ev.text = Ev.name /\ Ev.stream = Ev.name
         /\ Ev.name \in DOMAIN Ev.idl /\ Ev.idl[Ev.name] = Ev.num /\ seen' = seen \cup {Ev.num}
=============================================================================
