------------------------------ MODULE MC_Growth -----------------------------
(* Growth on a small torus from every configuration: phases are neither    *)
(* lost nor invented, what is filled stays, and after k steps exactly the  *)
(* cells within k grid steps of a nucleus are filled - so that              *)
(* ceil(size * dim / 2) steps always complete.                             *)
EXTENDS Growth, Life
CONSTANTS W, H, Phases, Kind, MaxNuclei
VARIABLES c, c0, n
gvars == <<c, c0, n>>
BG == "_"
Cells == 1..(W * H)

AxisD(a, b, m) == LET x == (a - b) % m IN IF x < m - x THEN x ELSE m - x
DX(i, j) == AxisD(Xof(i, H), Xof(j, H), W)
DY(i, j) == AxisD(Yof(i, H), Yof(j, H), H)
Cheb(i, j) == IF DX(i, j) > DY(i, j) THEN DX(i, j) ELSE DY(i, j)
Manh(i, j) == DX(i, j) + DY(i, j)
Offs(i, D) == {Cell(Xof(i, H) + d[1], Yof(i, H) + d[2], W, H) : d \in D} \ {i}
Cross == {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>}
A == [i \in Cells |->
        CASE Kind = "moore" -> {{j \in Cells \ {i} : Cheb(i, j) <= 1}}
          [] Kind = "neumann" -> {{j \in Cells \ {i} : Manh(i, j) <= 1}}
          [] Kind = "hex" -> {Offs(i, Cross \cup {<<1, 1>>, <<-1, -1>>}),
                              Offs(i, Cross \cup {<<-1, 1>>, <<1, -1>>})}]
Dist(i, j) == IF Kind = "moore" THEN Cheb(i, j) ELSE Manh(i, j)

GInit == /\ c0 \in {x \in [Cells -> Phases \cup {BG}] :
                       Cardinality({i \in Cells : x[i] # BG}) \in 1..MaxNuclei}
         /\ c = c0 /\ n = 0
RECURSIVE Fill(_, _)
Fill(d, i) == IF i > W * H THEN {d}
              ELSE UNION {Fill(Append(d, p), i + 1) : p \in GrowthChoices(A, c, i, BG)}
GNext == ~Complete(c, BG) /\ c' \in Fill(<<>>, 1) /\ n' = n + 1 /\ UNCHANGED c0
GSpec == GInit /\ [][GNext]_gvars /\ WF_gvars(GNext)

Kept == \A i \in Cells : c0[i] # BG => c[i] = c0[i]
SamePhases == Range(c) \ {BG} = Range(c0) \ {BG}
Near(i) == MinOf({Dist(i, j) : j \in {j \in Cells : c0[j] # BG}})
Front == \A i \in Cells : CASE Kind = "hex" -> (Near(i) <= n => c[i] # BG)
                            [] OTHER -> (Near(i) <= n) = (c[i] # BG)
Long == IF W > H THEN W ELSE H
EnoughSteps == n >= CeilDiv(Long * 2, 2) => Complete(c, BG)
StaysFilled == [][\A i \in Cells : c[i] # BG => c'[i] = c[i]]_gvars
Completes == <>Complete(c, BG)
=============================================================================
