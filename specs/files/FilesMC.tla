------------------------------ MODULE FilesMC ------------------------------
EXTENDS Files, TLC
CONSTANT Depth
VARIABLES fs, op
Names == {<<97>>, <<98>>}
Paths == UNION {[1..n -> Names] : n \in 1..Depth}
Init == fs = [p \in {} |-> 0] /\ op = "init"
Res(r, o) == fs' = r.fs /\ op' = o
Next == \/ \E p \in Paths : Res(Plant(fs, p, NFile(0, <<>>)), "file") \/ Res(MakeDir(fs, p, 0), "mkdir") \/ Res(Plant(fs, p, NFifo), "fifo")
        \/ \E p \in Paths, q \in {<<<<97>>>>, <<<<98>>>>} : Res(Plant(fs, p, NLink(q)), "link")
        \/ \E p, q \in Paths : Res(Rename(fs, p, q), "rename")
        \/ \E p \in Paths, rec \in BOOLEAN : LET w == At(fs, p) IN w.e = "" /\ op' = "remove" /\
               \E s \in SUBSET Under(fs, w.p), ok \in BOOLEAN : fs' = Without(fs, s) /\ Removed(fs, p, rec, ok, fs')
Small == Cardinality(DOMAIN fs) <= 3
IsClosed == Closed(fs)
\* making a directory makes one, and nothing else vanishes or changes
MakeDirMakes == \A p \in Paths : LET r == MakeDir(fs, p, 0) IN
    /\ r.ok => KindBehind(r.fs, p) = "dir"
    /\ \A q \in DOMAIN fs : q \in DOMAIN r.fs /\ r.fs[q] = fs[q]
    /\ ~r.ok => r.fs = fs
\* a removal that can succeed has one outcome only, and takes the link, not what it leads to
RemoveExact == \A p \in Paths : (At(fs, p).e = "" /\ Obstacles(fs, At(fs, p).p, TRUE) = {}) =>
    /\ Removed(fs, p, TRUE, TRUE, Without(fs, Under(fs, At(fs, p).p)))
    /\ ~Exists(Without(fs, Under(fs, At(fs, p).p)), p)
RenameMoves == \A p, q \in Paths : LET r == Rename(fs, p, q) IN
    /\ Closed(r.fs)
    /\ r.ok => Cardinality(DOMAIN r.fs) <= Cardinality(DOMAIN fs)
=============================================================================
