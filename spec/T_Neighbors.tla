----------------------------- MODULE T_Neighbors ----------------------------
(* Recorded answers of neighborhoods against Neighbors.  An execution has  *)
(* one structure (V, per, gram, k, sites) and a list of rules; or, for     *)
(* lengths of displacements, the displacements vs in units of 1/h.         *)
EXTENDS Neighbors, TraceData
VARIABLES tid, pos, st, bad

RECURSIVE HasRing(_)
HasRing(r) == CASE r.kind = "ring" -> TRUE
                [] r.kind = "stoch" -> \E x \in DOMAIN r.parts : HasRing(r.parts[x])
                [] r.kind = "class" -> \E x \in DOMAIN r.of : HasRing(r.of[x])
                [] OTHER -> FALSE
\* the distances between few sites are computed once
Start(tr) ==
    [h |-> 1, vs |-> <<>>,
     dist |-> IF "sites" \notin DOMAIN tr THEN <<>>
              ELSE IF Len(tr.sites) > 12 \/ ~(\E x \in DOMAIN tr.rules : HasRing(tr.rules[x])) THEN <<>>
              ELSE Table([V |-> tr.V, per |-> tr.per, gram |-> tr.gram, k |-> tr.k, sites |-> tr.sites])]
Within(e, x) == e.lo <= x /\ x <= e.hi
T(tr, S) == [dist |-> S.dist, V |-> tr.V, per |-> tr.per, gram |-> tr.gram, k |-> tr.k, sites |-> tr.sites]
Poss(e, tr, S) == Answers(T(tr, S), Named(tr.rules[e.rule]), e.cls, e.site)

Check(S, e, tr) ==
    IF e.err # "" THEN {"CallCompletes"}
    ELSE CASE e.op = "query" ->
             LET A == {a \in Poss(e, tr, S) : a.nbs = Range(e.got)} IN
             F("EachListedOnce", NoDup(e.got))
             \cup F("ExactlyTheNeighbors", A # {})
             \cup (IF A = {} \/ ~e.weighted THEN {}
                   ELSE F("WeightIsDistance", \E a \in A : \A x \in DOMAIN e.got :
                            WeightOk(T(tr, S), a.part, e.site, e.got[x], e.w[x])))
      [] e.op = "all" ->
             F("EveryComponentIsUsed",
               {Range(e.gots[x]) : x \in DOMAIN e.gots} = {a.nbs : a \in Poss(e, tr, S)})
      \* the relation as a whole, as pairs
      [] e.op = "symmetric" ->
             F("Symmetric", \A x \in DOMAIN e.pairs : \E y \in DOMAIN e.pairs :
                 e.pairs[y][1] = e.pairs[x][2] /\ e.pairs[y][2] = e.pairs[x][1])
      [] e.op \in {"locs", "build"} -> {}
      \* answers are known up to rounding to two decimals: lo..hi
      [] e.op = "length" ->
             F("KnownIfGiven", e.known = (e.v \in Range(S.vs)))
             \cup (IF ~e.known THEN {} ELSE
                   F("LengthOfDisplacement",
                     Within(e, IF e.kind = "euclid" THEN SquaredLength(e.v)
                               ELSE ManhattanLength(e.v))))
      [] e.op = "distance" -> F("Distance", Within(e, SquaredLength(Sub(e.v, e.w))))
      [] e.op = "box" -> F("EachListedOnce", NoDup(e.got))
                         \cup F("ExactlyTheBox", Range(e.got) = Box(e.lb, e.ub))

After(S, e, tr) == IF e.op = "locs" THEN [S EXCEPT !.h = e.h, !.vs = e.vs] ELSE S
TC == INSTANCE TraceCheck WITH Traces <- Data
Spec == TC!Spec
=============================================================================
