----------------------------- MODULE FilesTrace -----------------------------
EXTENDS TraceBase, Files
VARIABLES fs, tmp      \* tmp: the temporary files and directories that exist as objects
vars == <<fs, tmp>>
SetOf(s) == {s[i] : i \in DOMAIN s}
\* the tree the code left behind
After == LET t == SetOf(Ev.tree) IN [p \in {r.p : r \in t} |-> (CHOOSE r \in t : r.p = p).n]
Same == fs' = fs /\ After = fs
Stays == UNCHANGED tmp
Res(r) == fs' = r.fs /\ After = r.fs /\ Ev.ok = r.ok /\ UNCHANGED tmp
TInit == TraceStart /\ fs = [p \in {} |-> 0] /\ tmp = [i \in {} |-> 0]
\* the surroundings change things too
Setup == \/ Consume("mkfile") /\ Res(Plant(fs, Ev.p, NFile(420, Ev.c)))
         \/ Consume("mklink") /\ Res(Plant(fs, Ev.p, NLink(Ev.to)))
         \/ Consume("mkfifo") /\ Res(Plant(fs, Ev.p, NFifo))
         \/ Consume("swap") /\ fs' = After /\ UNCHANGED tmp /\ LET w == At(fs, Ev.p) IN     \* a directory in its place
               After = IF w.e = "" /\ Kind(fs, w.p) \in {"none", "file", "link", "fifo"} /\ w.p # <<>> THEN With(fs, w.p, NDir(493)) ELSE fs
Make == Consume("makedir") /\ Res(MakeDir(fs, Ev.p, Ev.m))
Remove == Consume("remove") /\ fs' = After /\ Removed(fs, Ev.p, Ev.rec, Ev.ok, After) /\ UNCHANGED tmp
Move == Consume("rename") /\ Res(Rename(fs, Ev.p, Ev.q))
Ask == /\ UNCHANGED tmp
       /\ \/ Consume("type") /\ Same /\ Ev.res = TypeName(KindAt(fs, Ev.p))
          \/ Consume("exist") /\ Same /\ Ev.ok = Exists(fs, Ev.p)
          \/ Consume("size") /\ Same /\ LET w == At(fs, Ev.p) k == KindAt(fs, Ev.p) IN
                k \in {"file", "none", "unknown"} => Ev.n = IF k = "file" THEN Len(fs[w.p].c) ELSE 0
          \/ Consume("mtime") /\ Same /\ Ev.n = IF KindAt(fs, Ev.p) \in {"none", "unknown"} THEN 0 - 1 ELSE Ev.t
          \/ Consume("readlink") /\ Same /\ LET w == At(fs, Ev.p) IN
                IF KindAt(fs, Ev.p) = "link" THEN Ev.ok /\ Ev.res = fs[w.p].to ELSE ~Ev.ok
          \/ Consume("realpath") /\ Same /\ LET w == Behind(fs, Ev.p) IN
                IF w.e = "" /\ Kind(fs, w.p) # "none" THEN Ev.ok /\ Ev.res = w.p ELSE ~Ev.ok
          \/ Consume("list") /\ Same /\ Len(Ev.res) = Cardinality(SetOf(Ev.res)) /\ SetOf(Ev.res) = Entries(fs, Ev.p, Ev.k, Ev.pat)
          \/ Consume("iter") /\ Same /\ LET w == Behind(fs, Ev.p) k == KindBehind(fs, Ev.p) hit(s) == Ev.piece = <<>> \/ Has(s, Ev.piece) IN
                IF k = "dir" THEN /\ Ev.ok /\ Len(Ev.res) = Cardinality(SetOf(Ev.res))
                                  /\ SetOf(Ev.res) = {n \in {Last(q) : q \in Kids(fs, w.p)} : n[1] # Dot /\ hit(n)}
                ELSE IF k = "file" THEN Ev.ok /\ Ev.res = SelectSeq(Lines(fs[w.p].c), hit)
                ELSE ~Ev.ok
\* text only
Text == /\ UNCHANGED tmp /\ fs' = fs
        /\ \/ Consume("dirname") /\ Ev.res = DirName(Ev.s)
           \/ Consume("basename") /\ Ev.res = BaseName(Ev.s)
           \/ Consume("join") /\ Ev.res = JoinPath(Ev.s, Ev.f)
           \/ Consume("divide") /\ Ev.res = Divide(Ev.s)
           \/ Consume("space") /\ Ev.free = Ev.bfree /\ Ev.avail = Ev.bavail /\ Ev.rest = 0
\* temporary objects: a template is the path without the six X's at its end
Fresh(w, q, pre, good) == /\ good /\ w.e = "" /\ Parent(q) = Parent(w.p) /\ Kind(fs, q) = "none"
                          /\ Len(Last(q)) = Len(pre) + 6 /\ SubSeq(Last(q), 1, Len(pre)) = pre
                          /\ SubSeq(Last(q), Len(pre) + 1, Len(pre) + 6) # <<88, 88, 88, 88, 88, 88>>
NewTmp(n) == LET w == At(fs, Ev.p) IN
    IF w.e = "" /\ Ev.good
    THEN /\ Ev.ok /\ Fresh(w, Parent(w.p) \o <<Ev.name>>, Last(Ev.p), TRUE)
         /\ fs' = With(fs, Parent(w.p) \o <<Ev.name>>, n) /\ After = fs'
         /\ tmp' = [i \in DOMAIN tmp \cup {Ev.i} |-> IF i = Ev.i THEN [k |-> n.k, p |-> Append(Parent(Ev.p), Ev.name), del |-> Ev.del] ELSE tmp[i]]
    ELSE ~Ev.ok /\ Same /\ tmp' = IF Ev.op = "tempfile" THEN tmp ELSE [i \in DOMAIN tmp \cup {Ev.i} |-> IF i = Ev.i THEN [k |-> "void", p |-> <<>>, del |-> FALSE] ELSE tmp[i]]
Temp == \/ Consume("tempdir") /\ NewTmp(NDir(448))
        \/ Consume("tempfile") /\ NewTmp(NFile(384, <<>>))
        \/ /\ Consume("drop") /\ tmp' = [i \in DOMAIN tmp \ {Ev.i} |-> tmp[i]] /\ fs' = After
           /\ IF Ev.i \notin DOMAIN tmp THEN After = fs
              ELSE LET x == tmp[Ev.i] w == At(fs, x.p) IN
                   IF ~x.del THEN After = fs
                   ELSE IF x.k = "dir" THEN \E ok \in BOOLEAN : Removed(fs, x.p, TRUE, ok, After)
                   ELSE After = IF w.e = "" /\ Kind(fs, w.p) \in {"file", "link", "fifo"} THEN Without(fs, {w.p}) ELSE fs
TNext == Setup \/ Make \/ Remove \/ Move \/ Ask \/ Text \/ Temp
=============================================================================
