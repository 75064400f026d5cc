----------------------------- MODULE MC_Analysis ----------------------------
(* Queries and statistics about all small states and results agree with    *)
(* each other.                                                             *)
EXTENDS Analysis
CONSTANTS Sites, Phases, Steps
VARIABLES c, us, n
vars == <<c, us, n>>
Updates == UNION {[D -> Phases] : D \in SUBSET Sites}
Init == c \in [Sites -> Phases] /\ us = <<>> /\ n = 0
Next == n < Steps /\ n' = n + 1 /\ \E u \in Updates : us' = Append(us, u) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
All == StepsFrom(c, us)
Last == All[Len(All)]
RECURSIVE SumCounts(_, _)
SumCounts(d, P) == IF P = {} THEN 0 ELSE LET p == CHOOSE p \in P : TRUE
                                         IN CountPhase(d, p) + SumCounts(d, P \ {p})
FractionsAddUp == \A x \in DOMAIN All : SumCounts(All[x], Present(All[x])) = Cardinality(Sites)
UnionOfSteps == Present(c) \subseteq Ever(All) /\ Present(Last) \subseteq Ever(All)
AsState(d) == [i \in Sites |-> ("occ" :> d[i])]
CountIsQuery == \A p \in Phases :
    CountPhase(Last, p) = Cardinality(Matching(AsState(Last), FALSE, <<>>, "", <<>>, "occ" :> p))
PairsAreCriteria == \A p \in Phases :
    Matching(AsState(Last), FALSE, <<>>, "", <<>>, "occ" :> p)
    = Matching(AsState(Last), FALSE, <<>>, "", <<[k |-> "occ", in |-> <<p>>, absent |-> FALSE]>>, <<>>)
ClassesPartition ==
    LET st == <<[id |-> 1, cls |-> "A"], [id |-> 2, cls |-> "B"]>>
    IN \A p \in Phases : Matching(AsState(Last), TRUE, st, "", <<>>, "occ" :> p)
         = Matching(AsState(Last), TRUE, st, "A", <<>>, "occ" :> p)
           \cup Matching(AsState(Last), TRUE, st, "B", <<>>, "occ" :> p)
=============================================================================
