---------------------------- MODULE StatusTrace ----------------------------
(* Status: OK, or one of the error codes with a message.  Slots "a" and "b".
   Messages are byte sequences of any length. *)
EXTENDS TraceBase, FiniteSets
VARIABLE st
vars == <<st>>
\* code name -> number
Num == [Inserted |-> 1, Error |-> 101, NoSuchFile |-> 102, NotSupported |-> 103, SyntaxError |-> 201, StatementEmpty |-> 202,
        SemanticError |-> 203, KeyNotFound |-> 301, PartialSuccess |-> 302, SpaceNotFound |-> 404, HostNotFound |-> 405,
        TagNotFound |-> 406, EdgeNotFound |-> 407, UserNotFound |-> 408, LeaderChanged |-> 409, Balanced |-> 410,
        IndexNotFound |-> 411, PartNotFound |-> 412, GroupNotFound |-> 413, ZoneNotFound |-> 414, ListenerNotFound |-> 415,
        PermissionError |-> 501]
OK == [c |-> "", m |-> [n |-> 0, h |-> ""]]
\* the text is the name of the code and the message (a general error is just its message)
Prefix(c) == IF c \in {"", "Error"} THEN "" ELSE c \o ": "
IsOK(s) == s.c = ""
Code(s) == IF IsOK(s) THEN 0 ELSE Num[s.c]
Shows(o, s) == /\ o.ok = IsOK(s) /\ o.code = Code(s)
               /\ o.msg = s.m
               /\ o.prefix = (IF IsOK(s) THEN "OK" ELSE Prefix(s.c))    \* the text before the message
               /\ o.stream
               /\ o.is = (IF IsOK(s) THEN <<>> ELSE <<s.c>>)            \* which of the isX() hold
Seen == /\ Shows(Ev.a, st'["a"]) /\ Shows(Ev.b, st'["b"])
        /\ Ev.eq = (st'["a"].c = st'["b"].c) /\ Ev.ne = ~Ev.eq          \* equality is that of the codes
TInit == TraceStart /\ st = [x \in {"a", "b"} |-> OK]
Set(x, v) == st' = [st EXCEPT ![x] = v]
Copy(x, y) == st' = [st EXCEPT ![x] = st[y]]
Move(x, y) == st' = IF x = y THEN st ELSE [st EXCEPT ![x] = st[y], ![y] = OK]
TNext == \/ Consume("make") /\ Set(Ev.x, [c |-> Ev.c, m |-> Ev.m]) /\ Seen
         \/ Consume("ok") /\ Set(Ev.x, OK) /\ Seen
         \/ Consume("copy") /\ Copy(Ev.x, Ev.y) /\ Seen
         \/ Consume("move") /\ Move(Ev.x, Ev.y) /\ Seen
         \* through a StatusOr, and through the macro that returns early
         \/ Consume("through") /\ Copy(Ev.x, Ev.y) /\ Seen /\ Ev.reached = IsOK(st[Ev.y])
=============================================================================
