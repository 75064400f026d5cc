------------------------------- MODULE MC_Life ------------------------------
(* Every configuration of a small torus under every listed rule: the       *)
(* evolution does not depend on where the torus is cut open, and not on    *)
(* the order in which the cells are listed.                                *)
EXTENDS Life, Json
CONSTANTS W, H, Rules, Mode, EmitScripts
VARIABLES r, c, n
vars == <<r, c, n>>
N == MooreTorus(W, H)

\* rules as digit sets
B3S23 == [born |-> {3}, survive |-> {2, 3}]
B4678 == [born |-> {4, 6, 7, 8}, survive |-> {3, 5, 6, 7, 8}]
B35678 == [born |-> {3, 5, 6, 7, 8}, survive |-> {5, 6, 7, 8}]
B2S == [born |-> {2}, survive |-> {}]
B3S12345 == [born |-> {3}, survive |-> {1, 2, 3, 4, 5}]
B0 == [born |-> {0, 1}, survive |-> {0, 8}]
AllRules == {B3S23, B4678, B35678, B2S, B3S12345, B0}
OneRule == {B3S23}
SomeRules == {[born |-> b, survive |-> s] : b \in {{}, {0}, {1}, {2}, {3}, {8}, {1, 3}},
                                            s \in {{}, {0}, {1}, {2}, {8}, {2, 3}}}

Step(x) == IF Mode = "sync" THEN LifeStep(N, x, r.born, r.survive)
           ELSE Sweep(N, x, r.born, r.survive, 1)

Init == r = "none" /\ c = <<>> /\ n = 0
Next == \/ /\ n = 0 /\ n' = 1
           /\ r' \in Rules
           /\ c' \in [1..(W * H) -> {"dead", "alive"}]
        \/ n = 1 /\ ~EmitScripts /\ n' = 2 /\ c' = Step(c) /\ UNCHANGED r
Spec == Init /\ [][Next]_vars

Equivariant == n = 1 => /\ \A a \in 0..(W - 1), b \in 0..(H - 1) :
                             Step(Shifted(c, a, b, W, H)) = Shifted(Step(c), a, b, W, H)
                        /\ Step(Mirror(c, W, H)) = Mirror(Step(c), W, H)
\* all dead and all alive: known by counting
Uniform == n = 1 => LET k == Cardinality(N[1]) IN
    /\ (\A i \in DOMAIN c : c[i] = "dead") =>
          \A i \in DOMAIN c : (Step(c)[i] = "alive") = (0 \in r.born)
    /\ (\A i \in DOMAIN c : c[i] = "alive") =>
          \A i \in DOMAIN c : (Step(c)[i] = "alive") = (k \in r.survive)
\* a cell whose surroundings do not change sees the same future
Local == n = 1 => \A i \in DOMAIN c : \A j \in DOMAIN c \ (N[i] \cup {i}) :
    LET d == [c EXCEPT ![j] = IF @ = "dead" THEN "alive" ELSE "dead"] IN Step(d)[i] = Step(c)[i]
Emit == n = 1 /\ EmitScripts =>
    PrintT("SCRIPT " \o ToJson([w |-> W, h |-> H, born |-> r.born, survive |-> r.survive,
                                alive |-> {i \in DOMAIN c : c[i] = "alive"}]))
=============================================================================
