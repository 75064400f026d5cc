------------------------------ MODULE T_Runner ------------------------------
(* Recorded runs of the serial, the parallel and the asynchronous runner.  *)
(* A recorded execution is a sequence of runs; S holds                     *)
(*   mode, cur, init, k, n   the run in progress                           *)
(*   steps                   its states so far                             *)
(*   queue, asked, dry       asynchronous: the queue; whether the          *)
(*                           controller was asked, and had nothing         *)
(*   raised                  the error the update rule ended the run with  *)
(*   runs                    the steps of the finished runs                *)
(*   rule, nbrs, order       for runs of a rule known to the specification *)
(*   rest                    and what the rule does not touch              *)
(* Views of the rule are listed once, in tr.views.                         *)
EXTENDS SimState, TraceData
VARIABLES tid, pos, st, bad

Start(tr) == [mode |-> "none", cur |-> EmptyState, init |-> EmptyState, k |-> 0, n |-> 0,
              steps |-> <<>>, chain |-> <<>>, queue |-> <<>>, asked |-> FALSE, dry |-> FALSE, raised |-> "",
              runs |-> <<>>, rule |-> "none", nbrs |-> <<>>, order |-> <<>>, rest |-> ""]

SeesCurrent(S, view, tr) == SameState(tr.views[view], S.cur)

RECURSIVE MergeAll(_)
MergeAll(calls) ==
    IF calls = <<>> THEN NoUpdate
    ELSE MergeBatch(Normal(Head(calls).form, Head(calls).v, Head(calls).site),
                    MergeAll(Tail(calls)))

SameSteps(a, b) == /\ Len(a) = Len(b) /\ \A i \in DOMAIN a : SameState(a[i], b[i])

\* A rule known to the specification: the answer at site s of configuration c
\* (a map from sites to integers); -1 stands for no answer.
Answer(S, c, s) ==
    LET x == c[s]
        l == c[S.nbrs[s][1]]
        r == c[S.nbrs[s][2]]
        R == S.rule
    IN IF R.kind = "table" THEN LET v == R.tab[ToString(x)][ToString(l)]
                                IN IF v = 2 THEN -1 ELSE v
       ELSE LET v == R.a * x + R.b * l + R.c * r + R.d
            IN IF v % 5 = R.skip THEN -1 ELSE v % R.m
RuleStep(S, c) == [s \in DOMAIN c |-> LET v == Answer(S, c, s) IN IF v < 0 THEN c[s] ELSE v]
RECURSIVE RuleIter(_, _, _)
RuleIter(S, c, n) == IF n = 0 THEN c ELSE RuleStep(S, RuleIter(S, c, n - 1))

\* Chains of runs: a state has the values of the sites, c, and a clock, t, that
\* tells asynchronous runs the next site; both kinds of steps go on from it.
ChainStep(S, x, kind) ==
    IF kind = "async" THEN
        LET s == S.order[(x.t % Len(S.order)) + 1]
            v == Answer(S, x.c, s)
        IN [c |-> IF v < 0 THEN x.c ELSE [x.c EXCEPT ![s] = v], t |-> x.t + 1]
    ELSE [c |-> RuleStep(S, x.c), t |-> x.t]
RECURSIVE ChainStates(_, _, _, _)
ChainStates(S, x, kind, n) ==
    IF n = 0 THEN <<x>> ELSE <<x>> \o ChainStates(S, ChainStep(S, x, kind), kind, n - 1)
SameAs(x, y) == x.t = y.t /\ SameMap(x.c, y.c)

Check(S, e, tr) ==
    CASE e.op = "start" -> {}
      \* one synchronous step: the applications, in any order, and the recorded state
      [] e.op = "step" ->
           LET sites == [i \in DOMAIN e.calls |-> e.calls[i].site] IN
           F("OncePerSite", NoDup(sites) /\ Range(sites) = DOMAIN S.cur.s)
           \cup F("SeesPreviousStep", \A i \in DOMAIN e.calls : SeesCurrent(S, e.calls[i].view, tr))
           \cup F("NextStateIsMerge",
                  LET u == MergeAll(e.calls) IN SameState(e.post, ApplyBatch(S.cur, u)))
           \cup F("NoStepTooMany", S.k < S.n)
      \* the controller is asked for sites
      [] e.op = "ask" ->
           F("AskedOnlyWhenEmpty", S.mode = "async" /\ S.queue = <<>>)
           \cup F("AskSeesCurrent", SeesCurrent(S, e.view, tr))
           \cup F("NotAskedAgainAfterNothing", ~S.dry)
      \* one asynchronous application
      [] e.op = "call" ->
           F("FirstInFirstOut", S.queue # <<>> /\ e.site = Head(S.queue))
           \cup F("SeesEarlierUpdates", SeesCurrent(S, e.view, tr))
           \cup F("NoStepTooMany", S.k < S.n)
      [] e.op = "raise" ->
           IF S.mode = "async" THEN F("FirstInFirstOut", S.queue # <<>> /\ e.site = Head(S.queue))
           ELSE F("AppliedToASite", e.site \in DOMAIN S.cur.s)
      [] e.op = "end" ->
           F("InitialStateKept", SameState(e.init, S.init))
           \cup F("EarlierRunsKept", /\ Len(e.runs) = Len(S.runs)
                                     /\ \A j \in DOMAIN e.runs : SameSteps(e.runs[j], S.runs[j]))
           \cup (IF S.raised # "" THEN F("ErrorReachesCaller", e.err = S.raised)
                 ELSE IF S.mode = "async" /\ S.k = 0 /\ S.dry
                 THEN F("RefusesWithoutSites", e.err # "")
                 ELSE F("CallCompletes", e.err = "") \cup
                 (IF e.err # "" THEN {} ELSE
                    F("AllSteps", \/ S.k = S.n
                                  \/ S.mode = "async" /\ S.dry /\ S.queue = <<>>)
                    \cup F("OneStepPerUpdate", e.len = S.k + 1)
                    \cup F("StartsWithInitial", SameState(e.steps[1], S.init))
                    \cup F("RecordedSteps", SameSteps(e.steps, S.steps))
                    \cup F("OutputIsLast", SameState(e.out, S.cur))
                    \cup F("NoFurtherCalls", e.extra = 0)
                    \cup F("HooksRunOnce", e.hooks = <<"result", "pre">> \/ e.hooks = <<"pre", "result">>)))
      \* runs of a known rule: e.vals are the integers the run starts from,
      \* e.steps those of every recorded step, e.out those of the output
      [] e.op = "rule" ->
           LET S1 == [S EXCEPT !.rule = e.rule, !.nbrs = e.nbrs] IN
           F("CallCompletes", e.err = "") \cup
           (IF e.err # "" THEN {} ELSE
              F("OneStepPerUpdate", Len(e.steps) = e.n + 1)
              \cup F("StartsWithInitial", SameMap(e.steps[1], e.vals))
              \cup F("StepIsSerialStep", \A i \in 1..(Len(e.steps) - 1) :
                        SameMap(e.steps[i + 1], RuleStep(S1, e.steps[i])))
              \cup F("OutputIsLast", SameMap(e.out, e.steps[Len(e.steps)]))
              \cup F("NothingElse", e.rest = e.rest0)
              \cup F("InitialStateKept", SameMap(e.init, e.vals)))
      [] e.op = "chain" -> {}
      \* a run from step e.at of an earlier run of the chain (0: where it starts);
      \* S.chain are the states of all of them as specified
      [] e.op = "part" ->
           F("CallCompletes", e.err = "") \cup
           (IF e.err # "" THEN {} ELSE
              LET want == ChainStates(S, S.chain[e.run + 1][e.at + 1], e.kind, e.n) IN
              F("OneStepPerUpdate", Len(e.steps) = e.n + 1)
              \cup F("GoesOnExactly", /\ Len(e.steps) = Len(want)
                                      /\ \A i \in DOMAIN want : SameAs(e.steps[i], want[i]))
              \cup F("OutputIsLast", SameAs(e.out, want[Len(want)]))
              \cup F("NothingElse", e.rest = S.rest))
      \* one simulation run serially (e.a) and in parallel (e.b)
      [] e.op = "same" ->
           F("CallCompletes", e.err = "") \cup
           (IF e.err # "" THEN {} ELSE F("SameAsSerial", SameSteps(e.a, e.b)))
      \* the caller goes on using the states it passed and was given
      [] e.op = "touch" ->
           F("EarlierRunsKept", /\ Len(e.runs) = Len(S.runs)
                                /\ \A j \in DOMAIN e.runs : SameSteps(e.runs[j], S.runs[j]))
      [] e.op = "choice" ->
           F("CallCompletes", e.err = "") \cup
           F("ChoosesExistingSite", e.got # <<>> /\ Range(e.got) \subseteq Range(e.ids))
      [] e.op = "cover" ->
           F("CallCompletes", e.err = "") \cup
           F("EverySiteCanBeChosen", Range(e.got) = Range(e.ids))
      [] e.op = "visits" ->
           F("CallCompletes", e.err = "") \cup
           F("VisitsExistingSites", Range(e.sites) \subseteq Range(e.ids))
           \cup F("AllSteps", Len(e.sites) = e.n /\ e.len = e.n + 1)
           \cup F("AddsNoSites", \A j \in DOMAIN e.stepids : Range(e.stepids[j]) = Range(e.ids))

After(S, e, tr) ==
    CASE e.op = "start" ->
           [S EXCEPT !.mode = e.mode, !.cur = e.state, !.init = e.state, !.k = 0, !.n = e.n,
                     !.steps = <<e.state>>, !.queue = <<>>, !.asked = FALSE, !.dry = FALSE,
                     !.raised = ""]
      [] e.op = "step" ->
           LET c == ApplyBatch(S.cur, MergeAll(e.calls))
           IN [S EXCEPT !.cur = c, !.k = @ + 1, !.steps = Append(@, c)]
      [] e.op = "ask" ->
           [S EXCEPT !.asked = TRUE, !.dry = (e.ret = <<>>), !.queue = e.ret]
      [] e.op = "call" ->
           LET c == ApplyBatch(S.cur, Normal(e.form, e.v, e.site))
           IN [S EXCEPT !.cur = c, !.k = @ + 1, !.steps = Append(@, c),
                        !.queue = Tail(@) \o e.next]
      [] e.op = "chain" ->
           [S EXCEPT !.rule = e.rule, !.nbrs = e.nbrs, !.order = e.order, !.rest = e.rest,
                     !.chain = <<<<[c |-> e.vals, t |-> e.t]>>>>]
      [] e.op = "part" ->
           [S EXCEPT !.chain = Append(@, ChainStates(S, @[e.run + 1][e.at + 1], e.kind, e.n))]
      [] e.op = "raise" -> [S EXCEPT !.raised = e.name]
      [] e.op = "end" ->
           IF e.err = "" THEN [S EXCEPT !.runs = Append(@, S.steps), !.mode = "none"]
           ELSE [S EXCEPT !.mode = "none"]
      [] OTHER -> S

TC == INSTANCE TraceCheck WITH Traces <- Data
Spec == TC!Spec
=============================================================================
