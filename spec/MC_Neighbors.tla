---------------------------- MODULE MC_Neighbors ----------------------------
(* The neighborhood rules say what they should, for every grid up to a     *)
(* size: displacement motifs with wrap-around are the textbook shapes,     *)
(* relations that are symmetric by nature are symmetric, nobody neighbors  *)
(* itself, and the distance rules do not depend on the image chosen.       *)
EXTENDS Neighbors
CONSTANTS MaxN, MaxR, Dim3
VARIABLES n, r, set
vars == <<n, r, set>>

Init == /\ n \in IF Dim3 THEN [1..3 -> 1..MaxN] ELSE [1..2 -> 1..MaxN]
        /\ r = 0 /\ set = FALSE
Next == ~set /\ set' = TRUE /\ r' \in 0..MaxR /\ UNCHANGED n
Spec == Init /\ [][Next]_vars

D == Len(n)
Coords == IF D = 2 THEN [1..2 -> 0..MaxN] ELSE [1..3 -> 0..MaxN]
PtsSet == {p \in Coords : \A c \in 1..D : p[c] < n[c]}
RECURSIVE Enum(_)
Enum(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE
                                    IN Append(Enum(S \ {x}), [cls |-> "A", loc |-> x])
Eye(s) == [i \in 1..D |-> [j \in 1..D |-> IF i = j THEN s[i] ELSE 0]]
T == [V |-> Eye(n), per |-> [i \in 1..D |-> TRUE], gram |-> Eye([i \in 1..D |-> 1]),
      k |-> 1, sites |-> Enum(PtsSet)]
Cube == [1..D -> -r..r]
Disps(S) == LET RECURSIVE E(_)
                E(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE
                                                 IN Append(E(X \ {x}), x)
            IN E(S)
Mo == [kind |-> "motif", disps |-> Disps(Cube)]
Vn == [kind |-> "motif", disps |-> Disps({p \in Cube : SumSeq([i \in 1..D |-> Abs(p[i])]) <= r})]
Moore == [kind |-> "moore", r |-> r, n |-> n]
Neumann == [kind |-> "neumann", r |-> r, n |-> n]
Circle == [kind |-> "ring", inner |-> 0, outer |-> r * r]
\* one site stands for all: the grid is the same from everywhere
S0 == 0
Textbook == set => /\ Plain(T, Mo, S0) = Plain(T, Moore, S0)
                   /\ Plain(T, Vn, S0) = Plain(T, Neumann, S0)
\* The Moore displacements are a box, and each is at its Chebyshev distance or nearer
BoxIsMoore == set => /\ Cube = Box([c \in 1..D |-> -r], [c \in 1..D |-> r + 1])
                     /\ PtsSet = Box([c \in 1..D |-> 0], n)
LengthsAgree == set => \A d \in Cube :
    /\ SquaredLength(d) = Quad(d, T.gram)
    /\ SquaredLength(d) <= ManhattanLength(d) ^ 2
    /\ ManhattanLength(d) ^ 2 <= D * SquaredLength(d)
    \* a displacement is never shorter than the distance it leads to
    /\ \A j \in AtDisp(T, S0, d) : SqDist(T, S0, j) <= SquaredLength(d)
CircleIsNearest == set => \A j \in Ids(T) \ {S0} :
    SqDist(T, S0, j) = SumSeq([c \in 1..D |-> AxisDist(Loc(T, S0)[c], Loc(T, j)[c], n[c]) ^ 2])
Symmetric == set => \A rule \in {Moore, Neumann, Circle} : \A j \in Ids(T) :
    S0 \in Plain(T, rule, j) <=> j \in Plain(T, rule, S0)
NotSelf == set => \A rule \in {Mo, Vn, Circle} : S0 \notin Plain(T, rule, S0)
PatternSizes == (set /\ D = 2 /\ \A c \in 1..D : n[c] >= 3) =>
    /\ \A a \in Answers(T, PseudoHex2, "", S0) : Cardinality(a.nbs) = 6
    /\ \A a \in Answers(T, PseudoPent, "", S0) : Cardinality(a.nbs) = 5
PatternSizes3 == (set /\ D = 3 /\ \A c \in 1..D : n[c] >= 3) =>
    \A a \in Answers(T, PseudoHex3, "", S0) : Cardinality(a.nbs) = 8
=============================================================================
