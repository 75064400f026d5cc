---------------------------- MODULE MC_Geometry -----------------------------
(* The geometry is right: every statement about wrapping and distance that *)
(* the other modules rely on, for every lattice and all points in a range. *)
EXTENDS Geometry
CONSTANTS E, P, K          \* matrix entries, point coordinates: -E..E, -P..P
VARIABLES V, per, a, set
vars == <<V, per, a, set>>

Mats == {M \in [1..2 -> [1..2 -> -E..E]] : Det(M) # 0}
Pts == [1..2 -> -P..P]
Grams == {<<<<1, 0>>, <<0, 1>>>>, <<<<2, 1>>, <<1, 2>>>>}

Init == V \in Mats /\ per \in [1..2 -> BOOLEAN] /\ a = [i \in 1..2 |-> 0] /\ set = FALSE
Next == ~set /\ set' = TRUE /\ a' \in Pts /\ UNCHANGED <<V, per>>
Spec == Init /\ [][Next]_vars

W(p) == Wrap(p, V, per)
AdjIsAdjugate == Comb(Comb(a, V), Adj(V)) = [i \in 1..2 |-> Det(V) * a[i]]
WrapGood == /\ W(W(a)) = W(a)
            /\ InCell(W(a), V, per)
            /\ Equiv(W(a), a, V, per)
WrapCanonical == \A b \in Pts : Equiv(a, b, V, per) <=> W(a) = W(b)
EquivIsShift == \A b \in Pts : (\E s \in Shifts(V, per, K) : b = Add(a, s)) => Equiv(a, b, V, per)
\* coefficients and combinations are inverse to each other
Inverse == /\ Coefs(Comb(a, V), V) = [i \in 1..2 |-> Vol(V) * a[i]]
           /\ Comb(Coefs(a, V), V) = [i \in 1..2 |-> Vol(V) * a[i]]
\* scaling the lattice divides the coefficients
ScaledCoefs == \A m, n \in 1..2 : LET S == Scaled(V, <<m, n>>)
    IN /\ Vol(S) = m * n * Vol(V)
       /\ m * Coefs(a, S)[1] = m * n * Coefs(a, V)[1] /\ n * Coefs(a, S)[2] = m * n * Coefs(a, V)[2]
\* there is a nearest difference, and only a tie leaves a choice
NearDiffs == \A D \in 1..4 : \A b \in Pts :
    LET G == {g \in [1..2 -> -(4 * P + 4)..(4 * P + 4)] : NearDiff(g, a, b, D, per)}
    IN /\ G # {}
       /\ Cardinality(G) > 1 => \E g \in G, i \in 1..2 : per[i] /\ 2 * Abs(g[i]) = D
\* in three and four dimensions, for some matrices made from V
Lift(M, n) == [i \in 1..n |-> [j \in 1..n |->
    IF i <= 2 /\ j <= 2 THEN M[i][j] ELSE IF i = j THEN 2 ELSE IF i = j + 1 THEN 1 ELSE IF j = i + 2 THEN -1 ELSE 0]]
More(n) == LET U == Lift(V, n)
               p == [i \in 1..n |-> IF i <= 2 THEN a[i] ELSE 3 - i]
               q == [i \in 1..n |-> IF i <= 2 THEN per[i] ELSE i % 2 = 0]
               X == Wrap(p, U, q)
    IN /\ Det(U) = DetUpTo(U, n)
       /\ Adj(U) = Cofactors(U)
       /\ Comb(Comb(p, U), Adj(U)) = [i \in 1..n |-> Det(U) * p[i]]
       /\ Det(U) # 0 =>
            /\ Coefs(Comb(p, U), U) = [i \in 1..n |-> Vol(U) * p[i]]
            /\ Wrap(X, U, q) = X /\ InCell(X, U, q) /\ Equiv(X, p, U, q)
            /\ LET s == Comb([i \in 1..n |-> IF q[i] THEN 2 - i ELSE 0], U)
               IN /\ s \in Shifts(U, q, 2)
                  /\ Equiv(Add(p, s), p, U, q) /\ Wrap(Add(p, s), U, q) = X
            /\ Cardinality(Shifts(U, q, 1)) = 3 ^ Cardinality({i \in 1..n : q[i]})
MoreDimensions == More(3) /\ More(4)
O == <<0, 0>>
D(x, y, G) == DistSq(x, y, V, per, G, K)
DistGood == \A G \in Grams :
    /\ D(a, O, G) = D(O, a, G)
    /\ (D(a, O, G) = 0) <=> Equiv(a, O, V, per)
    /\ D(W(a), O, G) = D(a, O, G)
    /\ D(a, O, G) <= Quad(a, G)
    /\ D(a, O, G) = DistSq(a, O, V, per, G, K + 2)    \* the range K is enough
=============================================================================
