------------------------------ MODULE MC_Drawing ----------------------------
(* Pictures of all small grids: every cell has a block of its own, going   *)
(* right increases the first coordinate, going up the second; an animation *)
(* starts with the first step, keeps the order and never shows a step that *)
(* does not exist.                                                         *)
EXTENDS Drawing
CONSTANTS MaxN, MaxSteps
VARIABLES nx, ny, c, n, freq, pc
vars == <<nx, ny, c, n, freq, pc>>
L == [i \in 1..(nx * ny) |-> <<(i - 1) \div ny, (i - 1) % ny>>]
CM == [a |-> 11, b |-> 22]
Init == /\ nx \in 1..MaxN /\ ny \in 1..MaxN /\ n \in 1..MaxSteps /\ freq \in 1..(MaxSteps + 1)
        /\ c = <<>> /\ pc = 0
Next == pc = 0 /\ pc' = 1 /\ c' \in [1..(nx * ny) -> {"a", "b", "z"}] /\ UNCHANGED <<nx, ny, n, freq>>
Spec == Init /\ [][Next]_vars
P == Picture(L, nx, ny, c, CM)
PictureIsDrawn == pc = 1 => Drawn(L, nx, ny, c, CM, P)
\* the picture determines the state, up to phases without a color
Readable == pc = 1 => \A i \in DOMAIN L : LET b == BlockOf(L[i], ny)
    IN (c[i] = "a") = (P[b[1]][b[2]] = <<11>>) /\ (c[i] = "z") = (P[b[1]][b[2]] = <<Black>>)
OwnBlocks == pc = 1 => \A i, j \in DOMAIN L : i # j => BlockOf(L[i], ny) # BlockOf(L[j], ny)
Oriented == pc = 1 => \A i, j \in DOMAIN L :
    LET a == BlockOf(L[i], ny)
        b == BlockOf(L[j], ny)
    IN /\ L[i][1] < L[j][1] => a[2] < b[2]
       /\ L[i][2] < L[j][2] => a[1] > b[1]
\* a grid with three cells in the third direction: the seen cells are those
\* whose neighbor to the right, in front or above is outside of the grid, and
\* nobody is seen twice
L3 == [i \in 1..(nx * ny * 3) |-> <<(i - 1) \div (3 * ny), ((i - 1) \div 3) % ny, (i - 1) % 3>>]
C3 == [i \in DOMAIN L3 |-> c[((i - 1) % Len(L)) + 1]]
Solids == pc = 1 =>
    LET n3 == <<nx, ny, 3>>
        In(p) == \A k \in 1..3 : p[k] >= 0 /\ p[k] < n3[k]
        whole == Solid(L3, n3, C3, CM, FALSE)
        shell == Solid(L3, n3, C3, CM, TRUE)
    IN /\ Cardinality(whole) = Len(L3) /\ shell \subseteq whole
       /\ Cardinality(whole) - Cardinality(shell) = (nx - 1) * (ny - 1) * 2
       /\ \A b \in whole : b \in shell <=>
             \E d \in {<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 1>>} :
                 ~In([k \in 1..3 |-> b[1][k] + d[k]])
Frames == /\ FrameCount(n, freq) >= 1
          /\ StepOfFrame(1, freq) = 0
          /\ \A k \in 1..FrameCount(n, freq) : StepOfFrame(k, freq) < n
          /\ StepOfFrame(FrameCount(n, freq) + 1, freq) >= n
          /\ freq = 1 => FrameCount(n, freq) = n
=============================================================================
