------------------------------ MODULE T_Setups ------------------------------
(* Recorded starting states against Setups.  An execution has a grid: L    *)
(* (locations by ID) and n (cells along the axes).                         *)
EXTENDS Setups, TraceData
VARIABLES tid, pos, st, bad

Start(tr) == <<>>
All(s, p) == \A i \in DOMAIN s : s[i] = p
Solid(tr, p) == [i \in DOMAIN tr.L |-> p]
WholeGrid(e, tr) == F("EverySiteOnce", Len(e.cells) = Len(tr.L) /\ e.L = tr.L)

Nucleated(e, tr) ==
    F("ExactCount", Cardinality(Nuclei(e.cells, e.bg)) = e.want)
    \cup F("RequestedPhasesOnly", \A i \in Nuclei(e.cells, e.bg) :
                                     \E x \in DOMAIN e.shares : e.shares[x].p = e.cells[i])
    \cup F("WithinOneOfItsShare", \A x \in DOMAIN e.shares :
                                     Quota(CountP(e.cells, e.shares[x].p), e.shares[x], e.want))
    \cup F("KeptApart", e.buffer >= 0 => Apart(tr.L, tr.n, e.cells, e.bg, e.buffer))

Check(S, e, tr) ==
    IF e.op = "nuclei"
    THEN IF e.err # "" THEN F("FeasibleIsServed", ~e.sane \/ ~Roomy(tr.L, tr.n, e.want, e.buffer))
         ELSE IF ~e.sane THEN {"NonsenseIsRefused"}
         ELSE WholeGrid(e, tr) \cup (IF Len(e.cells) = Len(tr.L) THEN Nucleated(e, tr) ELSE {})
    ELSE IF e.err # "" THEN {"CallCompletes"}
    \* where phases have been in many draws: everywhere, each of them if it is drawn
    ELSE IF e.op = "spread" THEN
        F("EverySiteCanBeDrawn", \A i \in DOMAIN tr.L : \E x \in DOMAIN e.got : e.got[x].site + 1 = i)
        \cup F("EveryPhaseCanBeDrawn", e.kind # "nuclei" =>
                 \A i \in DOMAIN tr.L : \A p \in Range(e.phases) :
                     \E x \in DOMAIN e.got : e.got[x].site + 1 = i /\ e.got[x].p = p)
        \cup F("ListedPhases", \A x \in DOMAIN e.got : e.got[x].p \in Range(e.phases))
    ELSE IF WholeGrid(e, tr) # {} THEN WholeGrid(e, tr)
    ELSE CASE e.op = "solid" -> F("Solid", All(e.cells, e.p))
      [] e.op = "interface" ->
             F("SplitInHalf", \A i \in DOMAIN tr.L :
                 e.cells[i] = (IF tr.L[i][1] < tr.n[1] \div 2 THEN e.p1 ELSE e.p2))
      [] e.op = "particle" ->
             F("ParticleInBulk", \A i \in DOMAIN tr.L :
                 e.cells[i] = (IF Inside(tr.L, tr.n, e.lim, i) THEN e.p ELSE e.bulk))
      [] e.op = "addparticle" ->
             F("OnlyWithinRadius", \A i \in DOMAIN tr.L :
                 e.cells[i] # S[i] => Reach(tr.L, tr.n, e.c2, e.lim, i))
             \cup F("AllWithinRadius", \A i \in DOMAIN tr.L :
                 Inside(tr.L, e.c2, e.lim, i) => e.cells[i] = e.p)
             \cup F("NothingElse", Fell(tr.L, tr.n, S, <<[c2 |-> e.c2, lim |-> e.lim, p |-> e.p]>>, e.cells))
      [] e.op = "coords" ->
             \* at: sequence of [p, loc], in the grid or an image of it
             LET Here(x, i) == \A c \in DOMAIN tr.n : (e.at[x].loc[c] - tr.L[i][c]) % tr.n[c] = 0 IN
             F("ExactlyTheCoordinates", \A i \in DOMAIN tr.L :
                 IF \E x \in DOMAIN e.at : Here(x, i)
                 THEN \E x \in DOMAIN e.at : Here(x, i) /\ e.cells[i] = e.at[x].p
                 ELSE e.cells[i] = e.bg)
      [] e.op = "noise" -> F("ListedPhases", Range(e.cells) \subseteq Range(e.phases))
      [] e.op = "rparticles" ->
             F("BulkOrParticle", Range(e.cells) \subseteq Range(e.phases) \cup {e.bulk})
             \cup F("AtMostTheParticles", e.k <= e.search =>
                      RandomParticles(tr.L, tr.n, Solid(tr, e.bulk), e.k, e.lim,
                                      Range(e.phases), e.cells))

After(S, e, tr) == IF e.op # "nuclei" THEN e.cells ELSE S
TC == INSTANCE TraceCheck WITH Traces <- Data
Spec == TC!Spec
=============================================================================
