----------------------------- MODULE Placement -----------------------------
(* Where a key belongs: of n parts, the one its number names.  The number is the key's own
   8 bytes (the low one first), or a hash (MurmurHash2 for 64 bits) of the bytes before the
   first zero.  64-bit numbers: 8 bytes, the low one first. *)
EXTENDS Integers, Sequences, Bitwise
Zero8 == [i \in 1..8 |-> 0]
\* the small number k
Num8(k) == [i \in 1..8 |-> IF i = 1 THEN k % 256 ELSE IF i = 2 THEN (k \div 256) % 256 ELSE IF i = 3 THEN (k \div 65536) % 256 ELSE 0]
Xor8(a, b) == [i \in 1..8 |-> a[i] ^^ b[i]]
RECURSIVE Sum(_, _, _, _)
Sum(a, b, i, j) == IF j = 0 THEN 0 ELSE a[j] * b[i - j + 1] + Sum(a, b, i, j - 1)
RECURSIVE Carry(_, _, _, _)
Carry(a, b, i, c) == IF i > 8 THEN <<>> ELSE LET x == Sum(a, b, i, i) + c IN <<x % 256>> \o Carry(a, b, i + 1, x \div 256)
Mul8(a, b) == Carry(a, b, 1, 0)
\* the upper 17 bits
Shr47(a) == LET x == a[6] \div 128 + a[7] * 2 + a[8] * 512 IN Num8(x)
M == <<149, 233, 209, 91, 147, 167, 164, 198>>
Seed == <<7, 105, 15, 199, 0, 0, 0, 0>>
Mix(k) == LET a == Mul8(k, M) IN Mul8(Xor8(a, Shr47(a)), M)
RECURSIVE Blocks(_, _, _)
Blocks(s, h, i) == IF i + 7 > Len(s) THEN h ELSE Blocks(s, Mul8(Xor8(h, Mix(SubSeq(s, i, i + 7))), M), i + 8)
Tail8(s) == LET r == Len(s) % 8 IN [i \in 1..8 |-> IF i <= r THEN s[Len(s) - r + i] ELSE 0]
Hash(s) == LET h0 == Xor8(Seed, Mul8(Num8(Len(s)), M))
               h1 == Blocks(s, h0, 1)
               h2 == IF Len(s) % 8 = 0 THEN h1 ELSE Mul8(Xor8(h1, Tail8(s)), M)
               h3 == Mul8(Xor8(h2, Shr47(h2)), M)
           IN Xor8(h3, Shr47(h3))
RECURSIVE Upto0(_, _)
Upto0(s, i) == IF i > Len(s) \/ s[i] = 0 THEN SubSeq(s, 1, i - 1) ELSE Upto0(s, i + 1)
RECURSIVE Mod(_, _, _)
Mod(a, n, i) == IF i = 9 THEN 0 ELSE (Mod(a, n, i + 1) * 256 + a[i]) % n
PartOf(key, n) == Mod(IF Len(key) = 8 THEN key ELSE Hash(Upto0(key, 1)), n, 1) + 1
=============================================================================
