------------------------------- MODULE Files -------------------------------
(* A file tree: fs maps paths (sequences of names) to nodes.  The root <<>> is a
   directory outside the map.  A symbolic link leads to a path from the root.
   Names are sequences of bytes; a node has all fields, the unused ones empty. *)
EXTENDS Naturals, FiniteSets, Sequences
Node(k, m, c, to) == [k |-> k, m |-> m, c |-> c, to |-> to]
NDir(m)   == Node("dir", m, <<>>, <<>>)
NFile(m, c)  == Node("file", m, c, <<>>)
NLink(to) == Node("link", 0, <<>>, to)
NFifo     == Node("fifo", 0, <<>>, <<>>)

IsPre(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Under(fs, p) == {q \in DOMAIN fs : IsPre(p, q)}
Kids(fs, p)  == {q \in DOMAIN fs : Len(q) = Len(p) + 1 /\ IsPre(p, q)}
Kind(fs, p) == IF p = <<>> THEN "dir" ELSE IF p \in DOMAIN fs THEN fs[p].k ELSE "none"
Without(fs, s) == [q \in DOMAIN fs \ s |-> fs[q]]
With(fs, p, n) == [q \in DOMAIN fs \cup {p} |-> IF q = p THEN n ELSE fs[q]]

\* where a path leads: e is "" or why it leads nowhere (an absent last name is fine)
RECURSIVE Walk(_, _, _, _, _)
Walk(fs, done, todo, fuel, last) ==
    IF todo = <<>> THEN [e |-> "", p |-> done]
    ELSE LET q == Append(done, Head(todo)) rest == Tail(todo) k == Kind(fs, q) IN
         IF k = "none" THEN IF rest = <<>> THEN [e |-> "", p |-> q] ELSE [e |-> "noent", p |-> q]
         ELSE IF k = "link" /\ (rest # <<>> \/ last)
              THEN IF fuel = 0 THEN [e |-> "loop", p |-> q] ELSE Walk(fs, <<>>, fs[q].to \o rest, fuel - 1, last)
         ELSE IF rest # <<>> /\ k # "dir" THEN [e |-> "notdir", p |-> q]
         ELSE Walk(fs, q, rest, fuel, last)
At(fs, p)     == Walk(fs, <<>>, p, 12, FALSE)      \* the thing itself
Behind(fs, p) == Walk(fs, <<>>, p, 12, TRUE)       \* what it leads to
KindAt(fs, p) == LET w == At(fs, p) IN IF w.e = "" THEN Kind(fs, w.p) ELSE IF w.e = "noent" THEN "none" ELSE "unknown"
KindBehind(fs, p) == LET w == Behind(fs, p) IN IF w.e = "" THEN Kind(fs, w.p) ELSE "none"
Exists(fs, p) == KindBehind(fs, p) # "none"
TypeName(k) == CASE k = "none" -> "NotExist" [] k = "unknown" -> "Unknown" [] k = "dir" -> "Directory"
                 [] k = "file" -> "Regular" [] k = "link" -> "SoftLink" [] k = "fifo" -> "FIFO"

\* put n at p if p is free and its parent there
Plant(fs, p, n) == LET w == At(fs, p) IN
    IF w.e = "" /\ Kind(fs, w.p) = "none" THEN [ok |-> TRUE, fs |-> With(fs, w.p, n)] ELSE [ok |-> FALSE, fs |-> fs]

RECURSIVE MakeDir(_, _, _)
MakeDir(fs, p, m) ==
    LET k == KindAt(fs, p) no == [ok |-> FALSE, fs |-> fs] IN
    IF k = "dir" THEN [ok |-> TRUE, fs |-> fs]
    ELSE IF k = "link" THEN [ok |-> KindBehind(fs, p) = "dir", fs |-> fs]
    ELSE IF k # "none" THEN no
    ELSE LET up == MakeDir(fs, Parent(p), m) IN
         IF ~up.ok THEN no ELSE Plant(up.fs, p, NDir(m))

\* removing p: what stands in the way, and what may be gone when it fails half-way
Obstacles(fs, p, rec) == {q \in Under(fs, p) : fs[q].k = "fifo" \/ (~rec /\ q # p /\ fs[q].k = "dir")}
Removed(fs, p, rec, ok, after) ==
    LET w == At(fs, p) q == w.p IN
    IF w.e \in {"notdir", "loop"} THEN ~ok /\ after = fs
    ELSE IF w.e = "noent" \/ Kind(fs, q) = "none" THEN ok /\ after = fs
    ELSE IF Obstacles(fs, q, rec) = {} THEN ok /\ after = Without(fs, Under(fs, q))
    ELSE /\ ~ok
         /\ DOMAIN after \subseteq DOMAIN fs /\ \A x \in DOMAIN after : after[x] = fs[x]
         /\ LET lost == DOMAIN fs \ DOMAIN after IN
            /\ lost \subseteq Under(fs, q)
            /\ \A x \in lost : Under(fs, x) \subseteq lost               \* directories only when emptied
            /\ lost \cap Obstacles(fs, q, rec) = {}
            /\ rec \/ \A x \in lost : Len(x) = Len(q) + 1

Rename(fs, src, dst) ==
    LET a == At(fs, src) b == At(fs, dst) no == [ok |-> FALSE, fs |-> fs] IN
    IF a.e # "" \/ b.e # "" \/ a.p = <<>> \/ b.p = <<>> THEN no
    ELSE IF Kind(fs, a.p) = "none" THEN no
    ELSE IF a.p = b.p THEN [ok |-> TRUE, fs |-> fs]
    ELSE IF IsPre(a.p, b.p) \/ IsPre(b.p, a.p) THEN no
    ELSE LET ka == Kind(fs, a.p) kb == Kind(fs, b.p) IN
         IF kb # "none" /\ ((ka = "dir") # (kb = "dir")) THEN no
         ELSE IF kb = "dir" /\ Kids(fs, b.p) # {} THEN no
         ELSE LET rest == Without(fs, Under(fs, a.p) \cup Under(fs, b.p))
                  Moved == {b.p \o SubSeq(q, Len(a.p) + 1, Len(q)) : q \in Under(fs, a.p)}
                  Back(q) == a.p \o SubSeq(q, Len(b.p) + 1, Len(q)) IN
              [ok |-> TRUE, fs |-> [q \in DOMAIN rest \cup Moved |-> IF q \in Moved THEN fs[Back(q)] ELSE fs[q]]]

Last(s) == s[Len(s)]
\* shell patterns: * ? and literal bytes; a leading period is only matched by a period
Star == 42
Any1 == 63
Dot == 46
RECURSIVE Matches(_, _, _)
Matches(pat, s, first) ==
    IF pat = <<>> THEN s = <<>>
    ELSE IF Head(pat) = Star THEN ~(first /\ s # <<>> /\ s[1] = Dot) /\ \E i \in 0..Len(s) : Matches(Tail(pat), SubSeq(s, i + 1, Len(s)), FALSE)
    ELSE /\ s # <<>>
         /\ IF Head(pat) = Any1 THEN ~(first /\ s[1] = Dot) ELSE Head(pat) = s[1]
         /\ Matches(Tail(pat), Tail(s), FALSE)
\* names of the entries of kind k in the directory p leads to, matching pat (<<>>: all)
Entries(fs, p, k, pat) ==
    LET w == Behind(fs, p) IN
    IF w.e # "" \/ Kind(fs, w.p) # "dir" THEN {}
    ELSE {Last(q) : q \in {x \in Kids(fs, w.p) : fs[x].k = k /\ (pat = <<>> \/ Matches(pat, Last(x), TRUE))}}
\* iterating: the lines of a file, or the entries of a directory that are not hidden; with the given piece in them
Has(s, piece) == \E i \in 0..Len(s) : i + Len(piece) <= Len(s) /\ SubSeq(s, i + 1, i + Len(piece)) = piece
NL == 10
RECURSIVE Lines(_)
Lines(c) == IF c = <<>> THEN <<>>
            ELSE IF \E i \in DOMAIN c : c[i] = NL
                 THEN LET i == CHOOSE i \in DOMAIN c : c[i] = NL /\ \A j \in 1..(i - 1) : c[j] # NL IN
                      <<SubSeq(c, 1, i - 1)>> \o Lines(SubSeq(c, i + 1, Len(c)))
                 ELSE <<c>>
\* text of paths (bytes)
Slash == 47
Root == <<Slash>>
NoTail(s) == IF s # Root /\ s # <<>> /\ Last(s) = Slash THEN SubSeq(s, 1, Len(s) - 1) ELSE s
CutAt(s) == IF \E i \in DOMAIN s : s[i] = Slash THEN CHOOSE i \in DOMAIN s : s[i] = Slash /\ \A j \in (i + 1)..Len(s) : s[j] # Slash ELSE 0
DirName(s) == LET t == NoTail(s) i == CutAt(t) IN
    IF t = Root THEN Root ELSE IF i = 0 THEN <<Dot>> ELSE IF i = 1 THEN Root ELSE SubSeq(t, 1, i - 1)
BaseName(s) == LET t == NoTail(s) IN IF t = Root THEN <<>> ELSE SubSeq(t, CutAt(t) + 1, Len(t))
JoinPath(d, f) == IF d = <<>> THEN <<Dot, Slash>> \o f ELSE IF Last(d) = Slash THEN d \o f ELSE d \o Root \o f
Divide(s) == IF s = <<>> \/ s = Root THEN <<<<>>, s>>
             ELSE LET t == NoTail(s) i == CutAt(t) IN
                  IF i = 0 THEN <<<<>>, t>> ELSE <<IF i = 1 THEN Root ELSE SubSeq(t, 1, i - 1), SubSeq(t, i + 1, Len(t))>>
---------------------------------------------------------------------------
Closed(fs) == \A p \in DOMAIN fs : p # <<>> /\ Kind(fs, Parent(p)) = "dir"
=============================================================================
