----------------------------- MODULE T_History -----------------------------
(* Recorded executions of SimulationResult against History: the state is   *)
(* the sequence of the steps recorded so far and the contents of the steps *)
(* that were retrieved and are still held.                                 *)
EXTENDS SimState, TraceData
VARIABLES tid, pos, st, bad

Start(tr) == [steps |-> <<tr.start>>, held |-> EmptyMap]

N(S) == Len(S.steps) - 1
Last(S) == S.steps[Len(S.steps)]

\* The steps that event e hands out, as a map from handles to step numbers
Handed(S, e) ==
    CASE e.op = "get"   -> e.h :> e.k
      [] e.op = "first" -> e.h :> 0
      [] e.op = "last"  -> e.h :> N(S)
      [] e.op = "next"  -> e.h :> e.k
      [] e.op = "iter"  -> [h \in Range(e.hs) |->
                              (CHOOSE i \in DOMAIN e.hs : e.hs[i] = h) - 1]
      \* some of the steps of an iteration
      [] e.op = "pick"  -> e.at
      [] OTHER -> EmptyMap

Check(S, e, tr) ==
    IF e.err # "" THEN {"CallCompletes"}
    ELSE
    LET new == Handed(S, e)
        touched == IF e.op = "poke" THEN {e.h} ELSE {}
    IN
    F("OneStepMore", e.n = CASE e.op = "add" -> Len(S.steps) + 1
                             [] e.op = "adds" -> Len(S.steps) + Len(e.us)
                             [] e.op = "adopt" -> Len(e.steps)
                             [] OTHER -> Len(S.steps))
    \cup (IF e.op = "iter" THEN F("IteratesAllSteps", Len(e.hs) = Len(S.steps)) ELSE {})
    \cup (IF e.op = "pick" THEN F("IteratesAllSteps", e.count = Len(S.steps)) ELSE {})
    \cup (IF e.op = "beyond" THEN F("RefusesUnrecorded", e.k > N(S) /\ e.r # "answered") ELSE {})
    \cup (IF e.op = "stop" THEN F("IteratesAllSteps", e.k = Len(S.steps)) ELSE {})
    \cup F("StepIsFold", \A h \in DOMAIN new :
              /\ new[h] <= N(S)
              /\ h \in DOMAIN e.obs
              /\ SameState(e.obs[h], S.steps[new[h] + 1]))
    \cup F("HeldStepsKeep", \A h \in DOMAIN e.obs \ (DOMAIN new \cup touched) :
              h \in DOMAIN S.held /\ SameState(e.obs[h], S.held[h]))
    \* steps adopted from a run are read twice, to be a fixed history
    \cup (IF e.op = "adopt" THEN F("RunStartsAtStart", SameState(e.steps[1], S.steps[1]))
          ELSE {})

RECURSIVE Grown(_, _)
Grown(steps, us) ==
    IF us = <<>> THEN steps
    ELSE Grown(Append(steps, ApplyBatch(steps[Len(steps)], Head(us))), Tail(us))

After(S, e, tr) ==
    LET held == [h \in DOMAIN e.obs |-> e.obs[h]]
    IN CASE e.op = "add"   -> [steps |-> Append(S.steps, ApplyBatch(Last(S), e.u)), held |-> held]
           [] e.op = "adds"  -> [steps |-> Grown(S.steps, e.us), held |-> held]
           [] e.op = "adopt" -> [steps |-> e.steps, held |-> held]
         [] OTHER          -> [S EXCEPT !.held = held]

TC == INSTANCE TraceCheck WITH Traces <- Data
Spec == TC!Spec
=============================================================================
