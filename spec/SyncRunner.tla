----------------------------- MODULE SyncRunner -----------------------------
(* One synchronous simulation: a ring of cells, an arbitrary update rule   *)
(* that reads the cell and its left neighbour, and steps in which the rule *)
(* is applied to the cells one after the other, in any order, and the      *)
(* updates are merged at the end.                                          *)
EXTENDS Util

CONSTANTS NSites, NSteps,
          View      \* "previous": rules see the last finished step
                    \* "live": (control) rules see the updates made so far

Sites == 0..(NSites - 1)
Vals == {0, 1}
None == 2                              \* the rule returns nothing
Left(i) == (i + NSites - 1) % NSites
Rules == [Vals \X Vals -> Vals \cup {None}]
Configs == [Sites -> Vals]

Resp(rule, c, i) == rule[<<c[i], c[Left(i)]>>]
\* What one step means
Image(rule, c) == [i \in Sites |-> IF Resp(rule, c, i) = None THEN c[i] ELSE Resp(rule, c, i)]

RECURSIVE Iter(_, _, _)
Iter(rule, c, n) == IF n = 0 THEN c ELSE Image(rule, Iter(rule, c, n - 1))

VARIABLES rule, init, cur, pending, steps
vars == <<rule, init, cur, pending, steps>>

Init == /\ rule \in Rules /\ init \in Configs
        /\ cur = init /\ pending = EmptyMap /\ steps = <<init>>

Merged == [i \in Sites |-> IF i \in DOMAIN pending /\ pending[i] # None
                           THEN pending[i] ELSE cur[i]]

Apply(i) == /\ Len(steps) <= NSteps
            /\ i \notin DOMAIN pending
            /\ pending' = (i :> Resp(rule, IF View = "live" THEN Merged ELSE cur, i)) @@ pending
            /\ UNCHANGED <<rule, init, cur, steps>>

Commit == /\ DOMAIN pending = Sites
          /\ cur' = Merged
          /\ steps' = Append(steps, Merged)
          /\ pending' = EmptyMap
          /\ UNCHANGED <<rule, init>>

Next == Commit \/ \E i \in Sites : Apply(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* The order of the applications within a step does not matter
Simultaneous == \A k \in DOMAIN steps : steps[k] = Iter(rule, init, k - 1)
\* A run from any of the states is the rest of the run
Composes == \A j, k \in DOMAIN steps : j <= k => steps[k] = Iter(rule, steps[j], k - j)
OncePerStep == [][\A i \in DOMAIN pending : i \in DOMAIN pending' =>
                     pending'[i] = pending[i]]_vars
Finishes == <>(Len(steps) = NSteps + 1)
=============================================================================
