------------------------------ MODULE Neighbors -----------------------------
(* Neighborhoods.  A structure T is a record                               *)
(*   V, per, gram, k : lattice, periodicity, Gram matrix, image range      *)
(*   sites           : sequence of [cls, loc]; the ID is the index - 1     *)
(* A rule says who is a neighbor of whom:                                  *)
(*   [kind |-> "motif", disps]      the sites at the given displacements   *)
(*   [kind |-> "ring", inner, outer]  squared distance strictly between    *)
(*   [kind |-> "moore"/"neumann", r, n]  grid distance, n: the grid's size *)
(*   [kind |-> "stoch", parts]      any of the parts, at every query       *)
(*   [kind |-> "class", of]         the rule for the class of the site     *)
EXTENDS Geometry

Ids(T) == 0..(Len(T.sites) - 1)
Loc(T, i) == T.sites[i + 1].loc
Cls(T, i) == T.sites[i + 1].cls

\* i's neighbors at displacement d (at most one)
AtDisp(T, i, d) == {j \in Ids(T) \ {i} : Equiv(Add(Loc(T, i), d), Loc(T, j), T.V, T.per)}
SqDist0(T, i, j) == DistSq(Loc(T, i), Loc(T, j), T.V, T.per, T.gram, T.k)
\* A structure may carry a table of the distances, T.dist[i][j] for i < j
Table(T) == [i \in Ids(T) |-> [j \in (i + 1)..(Len(T.sites) - 1) |-> SqDist0(T, i, j)]]
SqDist(T, i, j) ==
    IF "dist" \in DOMAIN T /\ T.dist # <<>> /\ i # j
    THEN (IF i < j THEN T.dist[i][j] ELSE T.dist[j][i])
    ELSE SqDist0(T, i, j)

\* Distance along one axis of a ring of n cells
AxisDist(a, b, n) == LET x == (a - b) % n IN IF x < n - x THEN x ELSE n - x
AxisDists(T, i, j, n) == [c \in DOMAIN n |-> AxisDist(Loc(T, i)[c], Loc(T, j)[c], n[c])]
Chebyshev(T, i, j, n) == MaxOf(Range(AxisDists(T, i, j, n)))
Manhattan(T, i, j, n) == SumSeq(AxisDists(T, i, j, n))

Plain(T, rule, i) ==
    CASE rule.kind = "motif" -> UNION {AtDisp(T, i, rule.disps[x]) : x \in DOMAIN rule.disps}
      [] rule.kind = "ring" -> {j \in Ids(T) \ {i} : LET q == SqDist(T, i, j)
                                                    IN rule.inner < q /\ q < rule.outer}
      [] rule.kind = "moore" -> {j \in Ids(T) \ {i} : Chebyshev(T, i, j, rule.n) <= rule.r}
      [] rule.kind = "neumann" -> {j \in Ids(T) \ {i} : Manhattan(T, i, j, rule.n) <= rule.r}

\* The possible answers of rule (restricted to class cls, "" for none) about i,
\* each as [part, nbs]: a rule that is neither "stoch" nor "class", and its answer
RECURSIVE Answers(_, _, _, _)
Answers(T, rule, cls, i) ==
    IF rule.kind = "stoch"
    THEN UNION {Answers(T, rule.parts[x], cls, i) : x \in DOMAIN rule.parts}
    ELSE IF rule.kind = "class"
    THEN IF Cls(T, i) \in DOMAIN rule.of /\ cls \in {"", Cls(T, i)} THEN Answers(T, rule.of[Cls(T, i)], Cls(T, i), i)
         ELSE {[part |-> rule, nbs |-> {}]}
    ELSE IF cls # "" /\ Cls(T, i) # cls THEN {[part |-> rule, nbs |-> {}]}
    ELSE {[part |-> rule, nbs |-> Plain(T, rule, i)]}

\* w = <<lo, hi>>: the squared lengths that agree with the weight of neighbor j
WeightOk(T, part, i, j, w) ==
    IF part.kind = "motif"
    THEN \E x \in DOMAIN part.disps : /\ j \in AtDisp(T, i, part.disps[x])
                                      /\ LET q == Quad(part.disps[x], T.gram)
                                         IN w[1] <= q /\ q <= w[2]
    ELSE LET q == SqDist(T, i, j) IN w[1] <= q /\ q <= w[2]

\* The integer points p with lb <= p < ub along every axis
Box(lb, ub) ==
    LET all == UNION {lb[c]..(ub[c] - 1) : c \in DOMAIN lb}
    IN {p \in [DOMAIN lb -> all] : \A c \in DOMAIN lb : lb[c] <= p[c] /\ p[c] < ub[c]}
SquaredLength(v) == SumSeq([c \in DOMAIN v |-> v[c] * v[c]])
ManhattanLength(v) == SumSeq([c \in DOMAIN v |-> Abs(v[c])])

\* The documented patterns
Cross2 == << <<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>> >>
M(d) == [kind |-> "motif", disps |-> d]
PseudoHex2 == [kind |-> "stoch", parts |->
    << M(Cross2 \o << <<1, 1>>, <<-1, -1>> >>), M(Cross2 \o << <<-1, 1>>, <<1, -1>> >>) >>]
Cross3 == << <<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>>, <<0, 0, 1>>, <<0, 0, -1>> >>
PseudoHex3 == [kind |-> "stoch", parts |->
    << M(Cross3 \o << <<-1, -1, 1>>, <<1, 1, -1>> >>), M(Cross3 \o << <<-1, 1, 1>>, <<1, -1, -1>> >>),
       M(Cross3 \o << <<1, 1, 1>>, <<-1, -1, -1>> >>), M(Cross3 \o << <<1, -1, 1>>, <<-1, 1, -1>> >>) >>]
PseudoPent == [kind |-> "stoch", parts |->
    << M(<< <<-1, 0>>, <<1, 0>>, <<-1, -1>>, <<0, -1>>, <<1, -1>> >>),
       M(<< <<-1, 1>>, <<0, 1>>, <<1, 1>>, <<-1, 0>>, <<1, 0>> >>),
       M(<< <<0, 1>>, <<1, 1>>, <<1, 0>>, <<0, -1>>, <<1, -1>> >>),
       M(<< <<-1, 1>>, <<0, 1>>, <<-1, 0>>, <<-1, -1>>, <<0, -1>> >>) >>]
Named(r) == CASE r.kind = "hex2" -> PseudoHex2 [] r.kind = "hex3" -> PseudoHex3
              [] r.kind = "pent" -> PseudoPent [] OTHER -> r
=============================================================================
