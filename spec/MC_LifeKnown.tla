----------------------------- MODULE MC_LifeKnown ---------------------------
(* Known objects of Conway's rule on a torus of 6 by 6: the specification  *)
(* is the game everybody knows.                                            *)
EXTENDS Life
VARIABLES name, c, n
vars == <<name, c, n>>
S == 6
N == MooreTorus(S, S)
At(P) == [i \in 1..(S * S) |-> IF \E p \in P : Cell(p[1], p[2], S, S) = i THEN "alive" ELSE "dead"]
Objects == [block |-> {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>},
            blinker |-> {<<1, 2>>, <<2, 2>>, <<3, 2>>},
            tub |-> {<<1, 2>>, <<2, 1>>, <<3, 2>>, <<2, 3>>},
            glider |-> {<<1, 0>>, <<2, 1>>, <<0, 2>>, <<1, 2>>, <<2, 2>>}]
Init == name \in DOMAIN Objects /\ c = At(Objects[name]) /\ n = 0
Next == n < 24 /\ n' = n + 1 /\ c' = LifeStep(N, c, {3}, {2, 3}) /\ UNCHANGED name
Spec == Init /\ [][Next]_vars
Start == At(Objects[name])
Known == CASE name \in {"block", "tub"} -> c = Start
           [] name = "blinker" -> c = (IF n % 2 = 0 THEN Start ELSE At({<<2, 1>>, <<2, 2>>, <<2, 3>>}))
           [] name = "glider" -> n % 4 = 0 => c = Shifted(Start, -(n \div 4), -(n \div 4), S, S)
=============================================================================
