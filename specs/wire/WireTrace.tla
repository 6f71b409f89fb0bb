------------------------------ MODULE WireTrace ------------------------------
EXTENDS Wire, TraceBase
T == St(Ev.root)
TInit == TraceStart
TNext == \* an object as it was written; its size was foretold
         \/ Consume("enc") /\ Ev.ok /\ SameTree(Ev.w, Enc(T, Ev.x)) /\ Lossless(T, Ev.x)
         \* what came back of it
         \/ Consume("back") /\ Ev.ok /\ Alike(T, Ev.r, Arrives(T, Ev.x))
         \* a tree and the object that was read from it
         \/ Consume("dec") /\ IF Bad(T, Ev.w) THEN ~Ev.ok ELSE Ev.ok /\ Alike(T, Ev.r, Dec(T, Ev.w))
         \* the interface definition
         \/ Consume("idl") /\ Range(Schema[Ev.root]) = {[id |-> f.id, name |-> f.name, type |-> f.type, req |-> f.req] : f \in Range(Ev.f)} /\ Len(Schema[Ev.root]) = Len(Ev.f)
         \/ Consume("structs") /\ Range(Ev.f) = DOMAIN Schema /\ Range(Ev.u) = Unions
=============================================================================
