------------------------------ MODULE Geometry ------------------------------
(* Exact geometry of a periodic lattice.  A location is a vector of        *)
(* integers, in a fixed basis of space; a lattice is a matrix V of integers*)
(* whose rows are the lattice vectors in the same basis, with a flag per   *)
(* row that tells whether the lattice repeats in that direction.  Lengths  *)
(* come from the integer Gram matrix of the basis: the squared length of x *)
(* is Quad(x, G), in a unit fixed by the basis.                            *)
EXTENDS Util

Dim(V) == Len(V)
Vec(f(_), n) == [i \in 1..n |-> f(i)]
Add(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Sub(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]

RECURSIVE DotUpTo(_, _, _)
DotUpTo(a, b, k) == IF k = 0 THEN 0 ELSE a[k] * b[k] + DotUpTo(a, b, k - 1)
Dot(a, b) == DotUpTo(a, b, Len(a))

\* n * V, for a vector of coefficients n
Comb(n, V) == [j \in 1..Len(V[1]) |-> Dot(n, [i \in 1..Len(V) |-> V[i][j]])]

\* The matrix without row r and column c
Minor(V, r, c) == LET skip(x, k) == IF x < k THEN x ELSE x + 1
                  IN [i \in 1..(Len(V) - 1) |-> [j \in 1..(Len(V) - 1) |-> V[skip(i, r)][skip(j, c)]]]
Sign(i, j) == IF (i + j) % 2 = 0 THEN 1 ELSE -1

\* In any dimension, with the usual ones written out
RECURSIVE Det(_), DetUpTo(_, _)
DetUpTo(V, c) == IF c = 0 THEN 0
                 ELSE Sign(1, c) * V[1][c] * Det(Minor(V, 1, c)) + DetUpTo(V, c - 1)
Det(V) == CASE Len(V) = 1 -> V[1][1]
            [] Len(V) = 2 -> V[1][1] * V[2][2] - V[1][2] * V[2][1]
            [] Len(V) = 3 -> V[1][1] * (V[2][2] * V[3][3] - V[2][3] * V[3][2])
                           - V[1][2] * (V[2][1] * V[3][3] - V[2][3] * V[3][1])
                           + V[1][3] * (V[2][1] * V[3][2] - V[2][2] * V[3][1])
            [] OTHER -> DetUpTo(V, Len(V))

Cofactors(V) == [i \in 1..Len(V) |-> [j \in 1..Len(V) |-> Sign(i, j) * Det(Minor(V, j, i))]]

\* V * Adj(V) = Det(V) * identity
Adj(V) == CASE Len(V) = 1 -> <<<<1>>>>
            [] Len(V) = 2 -> <<<<V[2][2], -V[1][2]>>, <<-V[2][1], V[1][1]>>>>
            [] Len(V) = 3 ->
   <<<<V[2][2]*V[3][3]-V[2][3]*V[3][2], V[1][3]*V[3][2]-V[1][2]*V[3][3], V[1][2]*V[2][3]-V[1][3]*V[2][2]>>,
     <<V[2][3]*V[3][1]-V[2][1]*V[3][3], V[1][1]*V[3][3]-V[1][3]*V[3][1], V[1][3]*V[2][1]-V[1][1]*V[2][3]>>,
     <<V[2][1]*V[3][2]-V[2][2]*V[3][1], V[1][2]*V[3][1]-V[1][1]*V[3][2], V[1][1]*V[2][2]-V[1][2]*V[2][1]>>>>
            [] OTHER -> Cofactors(V)

\* The coefficients of p in V, as multiples of 1 / |Det(V)|
Coefs(p, V) == LET A == Adj(V)
                   sg == IF Det(V) < 0 THEN -1 ELSE 1
               IN [i \in 1..Len(V) |-> sg * Dot(p, [j \in 1..Len(V) |-> A[j][i]])]
Vol(V) == Abs(Det(V))

\* a and b are the same point of the lattice's space
Equiv(a, b, V, per) ==
    LET c == Coefs(Sub(a, b), V)
        v == Vol(V)
    IN \A i \in DOMAIN c : IF per[i] THEN c[i] % v = 0 ELSE c[i] = 0

\* The equivalent point inside the cell along the periodic directions
Wrap(p, V, per) ==
    LET c == Coefs(p, V)
        v == Vol(V)
    IN Sub(p, Comb([i \in DOMAIN c |-> IF per[i] THEN c[i] \div v ELSE 0], V))

InCell(p, V, per) == LET c == Coefs(p, V)
                     IN \A i \in DOMAIN c : per[i] => c[i] >= 0 /\ c[i] < Vol(V)

Scaled(V, cells) == [i \in DOMAIN V |-> [j \in DOMAIN V[i] |-> V[i][j] * cells[i]]]

Quad(x, G) == Dot(x, Comb(x, G))

\* Fractional coordinates a of points, as multiples of 1 / D.  The difference g
\* of two of them is taken to the nearest image along every periodic direction.
NearDiff(g, a, b, D, per) ==
    \A i \in DOMAIN a : LET d == a[i] - b[i]
                        IN IF per[i] THEN (g[i] - d) % D = 0 /\ 2 * Abs(g[i]) <= D
                           ELSE g[i] = d

\* Whole lattice vectors with coefficients up to K along periodic directions
Shifts(V, per, K) ==
    LET R(i) == IF per[i] THEN -K..K ELSE {0}
    IN CASE Len(V) = 1 -> {Comb(<<a>>, V) : a \in R(1)}
         [] Len(V) = 2 -> {Comb(<<a, b>>, V) : a \in R(1), b \in R(2)}
         [] Len(V) = 3 -> {Comb(<<a, b, c>>, V) : a \in R(1), b \in R(2), c \in R(3)}
         [] Len(V) = 4 -> {Comb(<<a, b, c, d>>, V) : a \in R(1), b \in R(2), c \in R(3), d \in R(4)}
         [] OTHER -> {Comb(n, V) : n \in {m \in [1..Len(V) -> -K..K] : \A i \in 1..Len(V) : m[i] \in R(i)}}

\* The squared distance of the nearest images; K has to be large enough for V
DistSq(a, b, V, per, G, K) ==
    LET d == Wrap(Sub(a, b), V, per)
    IN MinOf({Quad(Add(d, s), G) : s \in Shifts(V, per, K)})
=============================================================================
