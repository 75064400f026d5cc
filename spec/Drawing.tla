------------------------------- MODULE Drawing ------------------------------
(* Images of square grids with nx by ny cells, as a matrix of blocks, one  *)
(* per cell, rows from the top; colors are numbers.  cmap maps phases to   *)
(* colors, phases it does not have are black.                              *)
EXTENDS Util
Black == 0
White == 16777215
ColorOf(cmap, p) == IF p \in DOMAIN cmap THEN cmap[p] ELSE Black
\* where the cell at loc is drawn: <<row, column>>, from 1
BlockOf(loc, ny) == <<ny - loc[2], loc[1] + 1>>
\* L: locations of the sites, c: phases, blocks[r][k]: the colors in the block
Drawn(L, nx, ny, c, cmap, blocks) ==
    /\ Len(blocks) = ny /\ \A r \in 1..ny : Len(blocks[r]) = nx
    /\ \A i \in DOMAIN L : LET b == BlockOf(L[i], ny)
                           IN blocks[b[1]][b[2]] = <<ColorOf(cmap, c[i])>>
\* the picture of a state
Picture(L, nx, ny, c, cmap) ==
    [r \in 1..ny |-> [k \in 1..nx |->
        LET S == {i \in DOMAIN L : BlockOf(L[i], ny) = <<r, k>>}
        IN IF S = {} THEN <<Black>> ELSE <<ColorOf(cmap, c[CHOOSE i \in S : TRUE])>>]]

\* different phases get different colors as long as there are enough
GoodMap(phases, cmap, palette) ==
    /\ DOMAIN cmap = phases
    /\ LET k == Cardinality(phases)
       IN Cardinality(Range(cmap)) >= (IF k < palette THEN k ELSE palette)

\* Solids: three-dimensional grids are seen from the right, the front and the
\* top (+1, -2, +3), and the cells that are seen are those with a face there
Seen(loc, n) == loc[1] = n[1] - 1 \/ loc[2] = 0 \/ loc[3] = n[3] - 1
\* the boxes that are drawn: <<location, color>>
Solid(L, n, c, cmap, shell) ==
    {<<L[i], ColorOf(cmap, c[i])>> : i \in {i \in DOMAIN L : shell => Seen(L[i], n)}}

\* An animation of steps 0..n-1 shows every freq-th
FrameCount(n, freq) == CeilDiv(n, freq)
StepOfFrame(k, freq) == (k - 1) * freq       \* frames from 1, steps from 0
\* and shows every one for the same time: lasts are the times of the frames that are
\* stored (frames that look the same are stored as one), wait the time asked for, or 0
ShownFor(lasts, wait) ==
    \A k \in DOMAIN lasts :
      /\ lasts[k] > 0
      /\ LET unit == IF wait > 0 THEN wait
                     ELSE CHOOSE x \in Range(lasts) : \A y \in Range(lasts) : x <= y
         IN lasts[k] % unit = 0
=============================================================================
