----------------------------- MODULE T_Analysis -----------------------------
(* Recorded answers of analyzers against Analysis.  In the specification   *)
(* state, m is the state queried (site -> map), struct the structure (if   *)
(* the analyzer has one), steps the steps of the result analyzed (each     *)
(* site -> phase).                                                         *)
EXTENDS Analysis, TraceData
VARIABLES tid, pos, st, bad

Start(tr) == [m |-> <<>>, struct |-> <<>>, steps |-> <<>>]
Phase == "DISCRETE_OCCUPANCY"
Cur(S) == [i \in DOMAIN S.m |-> S.m[i][Phase]]
Last(S) == S.steps[Len(S.steps)]
Rising(x) == \A i \in 1..(Len(x) - 1) : x[i] < x[i + 1]

TraceOk(S, y, xs) == \* one plotted trace: [p, ys]
    /\ Len(y.ys) = Len(xs)
    /\ \A i \in DOMAIN xs : FractionOk(y.ys[i], S.steps[xs[i] + 1], y.p)
\* plotted are the phases that come above the limit at a plotted step
Prevalent(S, xs, lim) == {p \in Ever(S.steps) : \E i \in DOMAIN xs :
    LET d == S.steps[xs[i] + 1]
    IN Above(<<CountPhase(d, p), Cardinality(DOMAIN d)>>, lim)}

Check(S, e, tr) ==
    IF e.err # "" THEN {"CallCompletes"}
    ELSE CASE e.op \in {"state", "result"} -> {}
      [] e.op = "sites" ->
             F("EachOnce", NoDup(e.got))
             \cup F("ExactlyTheMatching", Range(e.got) =
                      Matching(S.m, tr.has, S.struct, e.cls, e.crits, e.pairs))
      [] e.op = "count" ->
             F("CountOfMatching", e.got = Cardinality(
                      Matching(S.m, tr.has, S.struct, e.cls, e.crits, e.pairs)))
      [] e.op = "present" -> F("PhasesPresent", NoDup(e.got) /\ Range(e.got) = Present(Cur(S)))
      [] e.op = "phasecount" -> F("PhaseCount", e.got = Cardinality(Present(Cur(S))))
      [] e.op = "cells" -> F("CellCount", e.got = CountPhase(Cur(S), e.p))
      [] e.op = "fraction" -> F("Fraction", FractionOk(e.got, Cur(S), e.p))
      [] e.op = "ratio" -> F("Ratio", SameFraction(e.got, CountPhase(Cur(S), e.p),
                                                   CountPhase(Cur(S), e.q)))
      [] e.op = "all" -> F("AllPhasesOfAllSteps", NoDup(e.got) /\ Range(e.got) = Ever(S.steps))
      [] e.op = "final" ->
             F("FinalPhases", DOMAIN e.got = Ever(S.steps))
             \cup F("FinalFractions", \A p \in DOMAIN e.got : FractionOk(e.got[p], Last(S), p))
      [] e.op = "at" -> F("FractionAtStep", FractionOk(e.got, S.steps[e.k + 1], e.p))
      [] e.op = "counts" ->
             LET n == Len(S.steps)
                 ok == Len(e.xs) > 0 /\ e.xs[1] = 0 /\ Rising(e.xs) /\ e.xs[Len(e.xs)] < n
             IN F("StepsPlotted", ok /\ (n <= 100 => Len(e.xs) = n))
                \cup (IF ~ok THEN {} ELSE
                      F("PlottedCounts", /\ Len(e.ys) = Len(e.xs)
                                         /\ \A i \in DOMAIN e.xs : e.ys[i] =
                                               Cardinality(Present(S.steps[e.xs[i] + 1]))))
      [] e.op = "plot" ->
             IF \E x \in DOMAIN e.traces : e.traces[x].xs # e.xs THEN {"SameStepsForAll"} ELSE
             LET n == Len(S.steps)
                 ok == /\ e.xs = <<>> \/ (e.xs[1] = 0 /\ Rising(e.xs) /\ e.xs[Len(e.xs)] < n)
             IN F("StepsPlotted", ok /\ (n <= 100 /\ e.traces # <<>> => Len(e.xs) = n))
                \cup (IF ~ok THEN {} ELSE
                      F("PlottedFractions", \A x \in DOMAIN e.traces :
                          TraceOk(S, e.traces[x], e.xs))
                      \cup F("PlottedPhases",
                          /\ NoDup([x \in DOMAIN e.traces |-> e.traces[x].p])
                          /\ {e.traces[x].p : x \in DOMAIN e.traces} =
                             Prevalent(S, IF e.xs # <<>> THEN e.xs
                                          ELSE [i \in 1..(IF n <= 100 THEN n ELSE 1) |-> i - 1],
                                       e.lim)))

After(S, e, tr) == CASE e.op = "state" -> [S EXCEPT !.m = e.m, !.struct = e.struct]
                     [] e.op = "result" -> [S EXCEPT !.steps = StepsFrom(e.start, e.us)]
                     [] OTHER -> S
TC == INSTANCE TraceCheck WITH Traces <- Data
Spec == TC!Spec
=============================================================================
