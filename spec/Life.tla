-------------------------------- MODULE Life --------------------------------
(* Cellular automata of the Game of Life family.  A configuration c is a   *)
(* sequence of cells, N the sequence of the cells' sets of neighbors (both *)
(* indexed from 1), born and survive are the sets of the rule B.../S...    *)
EXTENDS Util

AliveAround(N, c, i) == Cardinality({j \in N[i] : c[j] = "alive"})

LifeCell(own, k, born, survive) ==
    IF \/ own = "alive" /\ k \in survive
       \/ own = "dead" /\ k \in born
    THEN "alive" ELSE "dead"

\* every cell from the same configuration
LifeStep(N, c, born, survive) ==
    [i \in DOMAIN c |-> LifeCell(c[i], AliveAround(N, c, i), born, survive)]

\* one cell after the other, each seeing the ones before (what must not happen)
RECURSIVE Sweep(_, _, _, _, _)
Sweep(N, c, born, survive, i) ==
    IF i > Len(c) THEN c
    ELSE Sweep(N, [c EXCEPT ![i] = LifeCell(c[i], AliveAround(N, c, i), born, survive)],
               born, survive, i + 1)

\* The torus of w by h cells; cell x, y (from 0) is number x * h + y + 1
Cell(x, y, w, h) == (x % w) * h + (y % h) + 1
Xof(i, h) == (i - 1) \div h
Yof(i, h) == (i - 1) % h
MooreTorus(w, h) ==
    [i \in 1..(w * h) |->
        {Cell(Xof(i, h) + a, Yof(i, h) + b, w, h) : a \in -1..1, b \in -1..1} \ {i}]
Shifted(c, a, b, w, h) == [i \in DOMAIN c |-> c[Cell(Xof(i, h) + a, Yof(i, h) + b, w, h)]]
Mirror(c, w, h) == [i \in DOMAIN c |-> c[Cell(-Xof(i, h), Yof(i, h), w, h)]]
=============================================================================
