------------------------------ MODULE T_Models ------------------------------
(* Recorded runs of the Game of Life and of growth against Life and        *)
(* Growth.  An execution has one structure (V, per, gram, k, sites) and    *)
(* neighborhood rules; the state is the sequence of the cells' phases.     *)
EXTENDS Neighbors, Life, Growth, TraceData
VARIABLES tid, pos, st, bad

T(tr) == [V |-> tr.V, per |-> tr.per, gram |-> tr.gram, k |-> tr.k, sites |-> tr.sites]
\* IDs count from 0, cells from 1
Nbhd(tr, r, i) == {{j + 1 : j \in a.nbs} : a \in Answers(T(tr), Named(tr.rules[r]), "", i - 1)}
Start(tr) == [c |-> <<>>,
              A |-> [r \in DOMAIN tr.rules |-> [i \in DOMAIN tr.sites |-> Nbhd(tr, r, i)]]]
Only(A) == [i \in DOMAIN A |-> CHOOSE x \in A[i] : TRUE]

\* shares: sequence of [p, num, den]; the nuclei a phase got are less than one off
GivenNucleus(e) == {e.shares[x].p : x \in {x \in DOMAIN e.shares :
                        e.shares[x].num * e.nuclei >= e.shares[x].den}}

Check(S, e, tr) ==
    IF e.err # "" THEN {"CallCompletes"}
    ELSE CASE e.op = "init" -> {}
      [] e.op = "life" ->
             F("FollowsTheRule",
               e.cells = LifeStep(Only(S.A[1]), S.c, Range(e.born), Range(e.survive)))
      \* one application of the rule, without a run
      [] e.op = "life1" ->
             F("FollowsTheRule", e.got =
                 LifeCell(S.c[e.site + 1], AliveAround(Only(S.A[1]), S.c, e.site + 1),
                          Range(e.born), Range(e.survive)))
      [] e.op = "growth" ->
             F("OccupiedNeverChange",
               \A i \in DOMAIN S.c : S.c[i] # e.bg => e.cells[i] = S.c[i])
             \cup F("TakesAMajorityPhase", GrowthStep(S.A[e.rule], S.c, e.cells, e.bg))
      [] e.op = "growth1" ->
             F("TakesAMajorityPhase",
               e.got \in GrowthChoices(S.A[e.rule], S.c, e.site + 1, e.bg))
      [] e.op = "grown" ->
             F("NoBackgroundLeft", Len(e.cells) = Len(tr.sites) /\ Complete(e.cells, e.bg))
             \cup F("OnlyNucleusPhases",
                    Range(e.cells) \subseteq {e.shares[x].p : x \in DOMAIN e.shares})
             \cup F("NucleatedPhasesPresent", GivenNucleus(e) \subseteq Range(e.cells))
             \cup F("SameGrid", e.grid = tr.sites)

After(S, e, tr) == IF e.op \in {"init", "life", "growth"} THEN [S EXCEPT !.c = e.cells] ELSE S
TC == INSTANCE TraceCheck WITH Traces <- Data
Spec == TC!Spec
=============================================================================
