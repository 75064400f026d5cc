------------------------------- MODULE Growth -------------------------------
(* Growth: background cells take a phase most frequent among their         *)
(* neighbors that are not background.  A is a sequence: for every cell the *)
(* set of the possible answers (sets of cells) of its neighborhood.        *)
EXTENDS Util

Around(nbs, c, bg) == {j \in nbs : c[j] # bg}
CountOf(nbs, c, p) == Cardinality({j \in nbs : c[j] = p})
Majority(nbs, c, bg) ==
    LET P == {c[j] : j \in Around(nbs, c, bg)}
        n == [p \in P |-> CountOf(nbs, c, p)]
    IN {p \in P : \A q \in P : n[p] >= n[q]}

GrowthCell(c, i, nbs, bg) == IF c[i] # bg THEN {c[i]}
                             ELSE IF Around(nbs, c, bg) = {} THEN {bg}
                             ELSE Majority(nbs, c, bg)
GrowthChoices(A, c, i, bg) == UNION {GrowthCell(c, i, nbs, bg) : nbs \in A[i]}
GrowthStep(A, c, d, bg) == /\ DOMAIN d = DOMAIN c
                           /\ \A i \in DOMAIN c : d[i] \in GrowthChoices(A, c, i, bg)
Complete(c, bg) == \A i \in DOMAIN c : c[i] # bg
=============================================================================
