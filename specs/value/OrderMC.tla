------------------------------- MODULE OrderMC -------------------------------
(* The laws of the order, on the universe of values the code is compared on. *)
EXTENDS Order, Json, IOUtils
Uni == ndJsonDeserialize(IOEnv.VF_UNI)
VARIABLE done
N == Len(Uni)
LtM == [p \in (1..N) \X (1..N) |-> Lt(Uni[p[1]], Uni[p[2]])]
EqM == [p \in (1..N) \X (1..N) |-> Eq(Uni[p[1]], Uni[p[2]])]
Inc == [p \in (1..N) \X (1..N) |-> ~LtM[p] /\ ~LtM[<<p[2], p[1]>>]]
Irreflexive == \A i \in 1..N : ~LtM[<<i, i>>] /\ EqM[<<i, i>>]
Transitive == \A i, j \in 1..N : LtM[<<i, j>>] => \A k \in 1..N : LtM[<<j, k>>] => LtM[<<i, k>>]
\* incomparable is an equivalence: sorting is well defined
Weak == \A i, j \in 1..N : Inc[<<i, j>>] => \A k \in 1..N : Inc[<<j, k>>] => Inc[<<i, k>>]
Symmetric == \A i, j \in 1..N : EqM[<<i, j>>] = EqM[<<j, i>>]
EqTrans == \A i, j \in 1..N : EqM[<<i, j>>] => \A k \in 1..N : EqM[<<j, k>>] => EqM[<<i, k>>]
\* missing values at the ends
Ends2 == \A i, j \in 1..N : (IsEmpty(Uni[i]) /\ ~IsEmpty(Uni[j]) => LtM[<<i, j>>]) /\ (IsNull(Uni[i]) /\ ~IsNull(Uni[j]) => LtM[<<j, i>>])
Init == done = FALSE
Next == done' = TRUE
Laws == done => /\ Irreflexive /\ Transitive /\ Weak /\ Symmetric /\ EqTrans /\ Ends2
=============================================================================
