----------------------------- MODULE T_Structure ----------------------------
(* Recorded executions of PeriodicStructure, StructureBuilder, Lattice and *)
(* Simulation against Structure and Geometry.  Locations are vectors of    *)
(* integers in the basis of the execution.                                 *)
EXTENDS Geometry, TraceData, SimState
VARIABLES tid, pos, st, bad

Start(tr) == [V |-> <<>>, per |-> <<>>, sites |-> <<>>, state |-> EmptyState]

Occupied(S, p) == {i \in DOMAIN S.sites : Equiv(S.sites[i].loc, p, S.V, S.per)}
At(S, p) == IF Occupied(S, p) = {} THEN -1 ELSE (CHOOSE i \in Occupied(S, p) : TRUE) - 1

SeqSame(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]

\* The lattice that is observed
LatOk(S, lat) == /\ Len(lat.V) = Len(S.V)
                 /\ \A i \in DOMAIN S.V : SeqSame(lat.V[i], S.V[i])
                 /\ SeqSame(lat.per, S.per)

\* The structure that is observed through all of its listings
Listed(S, o) ==
    LET n == Len(S.sites) IN
    F("IdsInOrderOfAddition", SeqSame(o.ids, [i \in 1..n |-> i - 1]))
    \cup F("SitesListed", /\ Len(o.sites) = n
                          /\ Range(o.sites) = {[id |-> i - 1, cls |-> S.sites[i].cls,
                                                loc |-> S.sites[i].loc] : i \in 1..n})
    \cup F("SitesById", /\ Len(o.byid) = n
                        /\ \A i \in 1..n : /\ o.byid[i].id = i - 1
                                           /\ o.byid[i].cls = S.sites[i].cls
                                           /\ SeqSame(o.byid[i].loc, S.sites[i].loc))
    \cup F("UnknownIdsHaveNoSite", o.unknown)
    \cup F("ClassesListed", /\ NoDup(o.classes)
                            /\ Range(o.classes) = {S.sites[i].cls : i \in 1..n})
    \cup F("SitesOfClass", \A c \in DOMAIN o.ofclass :
              /\ NoDup(o.ofclass[c])
              /\ Range(o.ofclass[c]) = {i - 1 : i \in {j \in 1..n : S.sites[j].cls = c}})

Built(e) ==
    LET d == Len(e.V)
        N == e.cells
        Cells == CASE d = 1 -> {<<a>> : a \in 0..(N[1]-1)}
                   [] d = 2 -> {<<a, b>> : a \in 0..(N[1]-1), b \in 0..(N[2]-1)}
                   [] d = 3 -> {<<a, b, c>> : a \in 0..(N[1]-1), b \in 0..(N[2]-1), c \in 0..(N[3]-1)}
                   [] d = 4 -> {<<a, b, c, x>> : a \in 0..(N[1]-1), b \in 0..(N[2]-1), c \in 0..(N[3]-1), x \in 0..(N[4]-1)}
        W == Scaled(e.V, N)
    IN {[cls |-> e.motif[m].cls, loc |-> Wrap(Add(Comb(c, e.V), e.motif[m].loc), W, e.per)] :
          m \in DOMAIN e.motif, c \in Cells}
Cells(e) == LET P[i \in 0..Len(e.cells)] == IF i = 0 THEN 1 ELSE e.cells[i] * P[i - 1]
            IN P[Len(e.cells)]

BuiltState(e) ==
    [V |-> Scaled(e.V, e.cells), per |-> e.per, state |-> EmptyState,
     sites |-> [i \in DOMAIN e.obs.byid |-> [cls |-> e.obs.byid[i].cls, loc |-> e.obs.byid[i].loc]]]

CheckOk(S, e, tr) ==
    CASE e.op = "new" -> F("LatticeAsGiven", LatOk([V |-> e.V, per |-> e.per], e.lat))
                         \cup Listed([S EXCEPT !.sites = <<>>], e.obs)
      [] e.op = "add" ->
           F("NewIdIsNext", e.got = Len(S.sites))
           \cup Listed([S EXCEPT !.sites = Append(S.sites,
                           [cls |-> e.cls, loc |-> Wrap(e.loc, S.V, S.per)])], e.obs)
      [] e.op = "find" ->
           LET i == At(S, e.loc) IN
           F("FindsExactlyTheSite", e.id = i /\ e.site.id = i)
           \cup (IF i < 0 THEN F("NothingElsewhere", e.cls = "-" /\ e.site.cls = "-")
                 ELSE F("ClassAgrees", e.cls = S.sites[i + 1].cls /\ e.site.cls = e.cls)
                      \cup F("LocationAgrees", SeqSame(e.site.loc, S.sites[i + 1].loc)))
           \cup F("StateAgrees",
                  IF i >= 0 /\ ToString(i) \in DOMAIN S.state.s
                  THEN e.has /\ SameMap(e.state, S.state.s[ToString(i)]) ELSE ~e.has)
      [] e.op = "state" -> {}
      [] e.op = "reload" ->
           F("SameLattice", LatOk(S, e.lat)) \cup Listed(S, e.obs)
           \cup F("SameState", SameState(e.state, S.state))
      [] e.op = "build" ->
           LET B == BuiltState(e) IN
           F("LatticeIsScaled", LatOk(B, e.lat))
           \cup F("ExactlyTheTiling",
                  /\ Range(B.sites) = Built(e)
                  /\ Len(B.sites) = Cells(e) * Len(e.motif))
           \cup Listed(B, e.obs)
      [] e.op = "wrap" -> F("WrapIntoCell", SeqSame(e.got, Wrap(e.loc, e.V, e.per)))
                          \cup F("WrapTwice", SeqSame(e.again, e.got))
                          \cup F("ArgumentKept", SeqSame(e.arg, e.loc))
      [] e.op = "uneven" -> {}
      \* conversions: e.got counts 1 / Vol(V) of the vectors, and 1 / e.den of the basis
      [] e.op = "tofrac" -> F("FractionalOfPoint", SeqSame(e.got, Coefs(e.loc, e.V)))
      [] e.op = "tocart" -> F("PointOfFractional", SeqSame(e.got, Comb(e.n, e.V)))
      [] e.op = "fdiff" -> F("NearestFractionalDifference",
                             Len(e.got) = Len(e.a) /\ NearDiff(e.got, e.a, e.b, e.den, e.per))
      [] e.op = "lattice" -> F("LatticeAsGiven", LatOk([V |-> e.V, per |-> e.per], e.lat))
           \cup F("LengthsOfVectors", /\ Len(e.lens) = Len(e.V) /\ e.dim = Len(e.V)
                    /\ \A i \in DOMAIN e.V : LET q == Quad(e.V[i], tr.gram)
                                             IN e.lens[i][1] <= q /\ q <= e.lens[i][2])
      [] e.op = "scaled" -> F("LatticeIsScaled",
                              LatOk([V |-> Scaled(e.V, e.cells), per |-> e.per], e.lat))
      [] e.op = "dist" ->
           LET q == DistSq(e.a, e.b, e.V, e.per, tr.gram, e.k)
               In(r) == r[1] <= q /\ q <= r[2]
           IN F("NearestImage", In(e.d))
              \cup F("Symmetric", In(e.back))
              \cup F("ZeroIffEquivalent", e.zero <=> Equiv(e.a, e.b, e.V, e.per))
              \cup F("SameForImages", \A i \in DOMAIN e.images : In(e.images[i]))

\* What has to be refused
Refused(S, e) ==
    CASE e.op = "add"   -> Occupied(S, e.loc) # {}
      [] e.op = "build" -> Len(e.cells) # Len(e.V)
      \* vectors that do not have one dimension, as many as there are vectors
      [] e.op = "uneven" -> \E i \in DOMAIN e.lens : e.lens[i] # Len(e.lens)
      [] OTHER -> FALSE

Check(S, e, tr) ==
    IF Refused(S, e) THEN
        F("OccupiedRefused", e.op = "add" => e.err # "")
        \cup F("UnequalDimensionsRefused", e.op = "uneven" => e.err # "")
        \cup F("WrongSizeRefused", e.op = "build" => e.err # "")
        \cup (IF e.op = "add" THEN Listed(S, e.obs) ELSE {})
    ELSE IF e.err # "" THEN {"CallCompletes"}
    ELSE CheckOk(S, e, tr)

After(S, e, tr) ==
    IF Refused(S, e) THEN S
    ELSE CASE e.op = "new" -> [V |-> e.V, per |-> e.per, sites |-> <<>>, state |-> EmptyState]
           [] e.op = "add" -> [S EXCEPT !.sites = Append(@, [cls |-> e.cls,
                                            loc |-> Wrap(e.loc, S.V, S.per)])]
           [] e.op = "build" -> BuiltState(e)
           [] e.op = "state" -> [S EXCEPT !.state = e.state]
           [] OTHER -> S

TC == INSTANCE TraceCheck WITH Traces <- Data
Spec == TC!Spec
=============================================================================
