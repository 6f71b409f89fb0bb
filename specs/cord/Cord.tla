-------------------------------- MODULE Cord --------------------------------
(* Two cords, "a" and "b".  A cord is a growable byte sequence; everything
   written to it (raw bytes, the memory image of a number, a string, another
   cord, itself) is appended, and every way of reading it shows exactly the
   concatenation of what was appended since it was created or last cleared. *)
EXTENDS Naturals, Integers, Sequences, TLC
VARIABLE cont
Cords == {"a", "b"}

\* two's complement little-endian image of v in w bytes
RECURSIVE LE(_, _)
LE(v, w) == IF w = 0 THEN <<>> ELSE <<v % 256>> \o LE(v \div 256, w - 1)
Width(t) == CASE t \in {"i8", "u8", "char", "bool"} -> 1 [] t \in {"i16", "u16"} -> 2
              [] t \in {"i32", "u32"} -> 4 [] t \in {"i64", "u64"} -> 8

CInit == cont = [c \in Cords |-> <<>>]
Write(c, s)  == cont' = [cont EXCEPT ![c] = @ \o s]
Put(c, t, v) == Write(c, LE(v, Width(t)))
AppendCord(d, s) == cont' = [cont EXCEPT ![d] = @ \o cont[s]]
Clear(c)     == cont' = [cont EXCEPT ![c] = <<>>]

IsPrefix(p, s) == Len(p) <= Len(s) /\ p = SubSeq(s, 1, Len(p))
\* what a visitor that refuses its k-th block (k = 0: never) may see
Visit(c, k, seen, calls, res) ==
    /\ UNCHANGED cont
    /\ IsPrefix(seen, cont[c])
    /\ res = (k = 0 \/ calls < k)
    /\ res => seen = cont[c]
    /\ ~res => calls = k
    /\ (calls = 0) => cont[c] = <<>>
=============================================================================
