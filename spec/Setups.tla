------------------------------- MODULE Setups -------------------------------
(* Starting states on square grids.  A grid is the sequence L of the       *)
(* locations of its sites (index = ID + 1) with the numbers n of cells     *)
(* along the axes; a state is a sequence of phases.                        *)
EXTENDS Util

Ring(a, b, n) == LET x == (a - b) % n IN IF x < n - x THEN x ELSE n - x
ChebOn(L, n, i, j) == MaxOf({Ring(L[i][c], L[j][c], n[c]) : c \in DOMAIN n})
\* squared distance of twice the location of i from c2 (twice a point)
TwiceSq(L, i, c2) == SumSeq([c \in DOMAIN c2 |-> (2 * L[i][c] - c2[c]) ^ 2])
\* the same, over the edges of the grid if that is nearer
TwiceSqRing(L, n, i, c2) ==
    SumSeq([c \in DOMAIN c2 |-> Ring(2 * L[i][c], c2[c], 2 * n[c]) ^ 2])

Nuclei(s, bg) == {i \in DOMAIN s : s[i] # bg}
CountP(s, p) == Cardinality({i \in DOMAIN s : s[i] = p})

\* Random nucleation.  shares: sequence of [p, num, den], adding up to one
Apart(L, n, s, bg, buffer) ==
    \A i, j \in Nuclei(s, bg) : i # j => ChebOn(L, n, i, j) > buffer
Quota(k, x, want) == Abs(k * x.den - x.num * want) < x.den
\* so much room that no choice of sites gets stuck, not even with bad luck
Roomy(L, n, want, buffer) ==
    LET b == IF buffer < 0 THEN 0 ELSE buffer
        near(c) == IF 2 * b + 1 < n[c] THEN 2 * b + 1 ELSE n[c]
        RECURSIVE P(_)
        P(c) == IF c = 0 THEN 1 ELSE near(c) * P(c - 1)
    IN want = 1 \/ 2 * want * P(Len(n)) <= Len(L)

\* A particle with a center given as c2 = twice the center: sites with
\* TwiceSq < lim; over the edge of the grid it may or may not continue
Inside(L, c2, lim, i) == TwiceSq(L, i, c2) < lim
Reach(L, n, c2, lim, i) == TwiceSqRing(L, n, i, c2) < lim
\* what i may have after particles ps (a sequence of [c2, lim, p]) fell onto s
RECURSIVE AfterParticles(_, _, _, _, _)
AfterParticles(L, n, s, ps, i) ==
    IF ps = <<>> THEN {s[i]}
    ELSE LET x == ps[Len(ps)]
             before == AfterParticles(L, n, s, SubSeq(ps, 1, Len(ps) - 1), i)
         IN IF Inside(L, x.c2, x.lim, i) THEN {x.p}
            ELSE IF Reach(L, n, x.c2, x.lim, i) THEN {x.p} \cup before
            ELSE before
Fell(L, n, s, ps, d) == \A i \in DOMAIN s : d[i] \in AfterParticles(L, n, s, ps, i)

RECURSIVE Tuples(_, _)
Tuples(S, k) == IF k = 0 THEN {<<>>} ELSE {Append(t, x) : t \in Tuples(S, k - 1), x \in S}
\* up to k particles of the given phases, centered on sites
RandomParticles(L, n, s, k, lim, phases, d) ==
    LET Kinds == {[c2 |-> [c \in DOMAIN n |-> 2 * L[i][c]], lim |-> lim, p |-> p] :
                    i \in DOMAIN L, p \in phases}
    IN \E m \in 0..k : \E ps \in Tuples(Kinds, m) : Fell(L, n, s, ps, d)
=============================================================================
