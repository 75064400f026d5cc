---------------------------- MODULE ParallelPool ----------------------------
(* The same simulation carried out by a master and a pool of workers.  In  *)
(* every step the master queues one task per batch of cells; any idle      *)
(* worker takes any task, works at its own pace, and returns the updates   *)
(* of the batch; when all are back, the master merges them.                *)
EXTENDS Util

CONSTANTS NSites, NSteps, NWorkers, Chunk,
          Send      \* "full":  a task carries the state of the last step
                    \* "delta": (control) a task carries the last updates,
                    \*          which the worker applies to a state it keeps

Sites == 0..(NSites - 1)
Vals == {0, 1}
None == 2
Left(i) == (i + NSites - 1) % NSites
Rules == [Vals \X Vals -> Vals \cup {None}]
Configs == [Sites -> Vals]
Resp(rule, c, i) == rule[<<c[i], c[Left(i)]>>]
Image(rule, c) == [i \in Sites |-> IF Resp(rule, c, i) = None THEN c[i] ELSE Resp(rule, c, i)]
RECURSIVE Iter(_, _, _)
Iter(rule, c, n) == IF n = 0 THEN c ELSE Image(rule, Iter(rule, c, n - 1))

Batches == 0..(CeilDiv(NSites, Chunk) - 1)
BatchOf(b) == {i \in Sites : i \div Chunk = b}
Workers == 1..NWorkers

VARIABLES rule, init, master, last, todo, busy, local, results, steps
vars == <<rule, init, master, last, todo, busy, local, results, steps>>

NoUpd == [i \in Sites |-> None]
Upd(c, u) == [i \in Sites |-> IF u[i] = None THEN c[i] ELSE u[i]]

Init == /\ rule \in Rules /\ init \in Configs
        /\ master = init /\ last = NoUpd /\ todo = Batches
        /\ busy = [w \in Workers |-> -1]
        /\ local = [w \in Workers |-> init]
        /\ results = EmptyMap /\ steps = 0

Take(w, b) == /\ busy[w] = -1 /\ b \in todo /\ steps < NSteps
              /\ busy' = [busy EXCEPT ![w] = b]
              /\ todo' = todo \ {b}
              /\ local' = [local EXCEPT ![w] = IF Send = "full" THEN master
                                               ELSE Upd(local[w], last)]
              /\ UNCHANGED <<rule, init, master, last, results, steps>>

Finish(w) == /\ busy[w] # -1
             /\ results' = (busy[w] :> [i \in Sites |-> IF i \in BatchOf(busy[w])
                                          THEN Resp(rule, local[w], i) ELSE None]) @@ results
             /\ busy' = [busy EXCEPT ![w] = -1]
             /\ UNCHANGED <<rule, init, master, last, todo, local, steps>>

Merge == /\ DOMAIN results = Batches
         /\ LET u == [i \in Sites |-> results[i \div Chunk][i]]
            IN master' = Upd(master, u) /\ last' = u
         /\ results' = EmptyMap /\ todo' = Batches /\ steps' = steps + 1
         /\ UNCHANGED <<rule, init, busy, local>>

Next == Merge \/ \E w \in Workers : Finish(w) \/ \E b \in Batches : Take(w, b)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* A step of the pool is a step of the serial simulation, under every schedule
SerialStep == master = Iter(rule, init, steps)
StepIsSerial == [][steps' # steps => master' = Image(rule, master)]_vars
EveryBatchOnce == /\ todo \cap DOMAIN results = {}
                  /\ \A w \in Workers : busy[w] # -1 => busy[w] \notin todo \cup DOMAIN results
                  /\ \A w, v \in Workers : w # v /\ busy[w] # -1 => busy[w] # busy[v]
Finishes == <>(steps = NSteps)
=============================================================================
