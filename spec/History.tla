------------------------------- MODULE History ------------------------------
(* The recorded history of a simulation: a starting state and a sequence   *)
(* of updates, from which any step can be retrieved, with some steps kept  *)
(* ready (preloaded), and with retrieved steps that their holders change.  *)
EXTENDS SimState, Json

CONSTANTS Batches,     \* the updates that may be recorded
          MaxSteps,    \* how many of them at most
          Depth,       \* how many operations
          HandOut      \* "copy": a retrieved step is a snapshot
                       \* "alias": a preloaded step is handed out itself
VARIABLES start, diffs, ready, held, hist
vars == <<start, diffs, ready, held, hist>>

N == Len(diffs)
Step(k) == Fold(start, SubSeq(diffs, 1, k))       \* the meaning of "step k"

Init == /\ start = [s |-> ("0" :> ((IdKey :> "0") @@ ("x" :> "0"))), g |-> EmptyMap]
        /\ diffs = <<>> /\ ready = EmptyMap /\ held = <<>> /\ hist = <<>>

Record(o) == hist' = Append(hist, o)

Add(b) == /\ N < MaxSteps
          /\ diffs' = Append(diffs, b)
          /\ Record([op |-> "add", u |-> b])
          /\ UNCHANGED <<start, ready, held>>

\* Preloading keeps every interval-th step, computed by running forward
Preload(i) == /\ ready' = [k \in DOMAIN ready \cup {k \in 0..N : k % i = 0} |->
                             IF k \in DOMAIN ready /\ k # 0 THEN ready[k] ELSE Step(k)]
              /\ Record([op |-> "load", interval |-> i])
              /\ UNCHANGED <<start, diffs, held>>

Retrieve(k) == IF k \in DOMAIN ready THEN ready[k] ELSE Step(k)

\* from is the number of the step, 0 when the holder has a copy of his own
Get(k) == /\ k <= N
          /\ held' = Append(held, [v |-> Retrieve(k),
                                   from |-> IF HandOut = "alias" /\ k \in DOMAIN ready
                                            THEN k ELSE -1])
          /\ Record([op |-> "get", k |-> k])
          /\ UNCHANGED <<start, diffs, ready>>

\* The holder of a step changes it
Poke == /\ held # <<>>
        /\ LET h == held[Len(held)]
               c == SetSite(h.v, "0", "x" :> "99")
           IN /\ held' = [held EXCEPT ![Len(held)].v = c]
              /\ ready' = IF h.from >= 0 THEN [ready EXCEPT ![h.from] = c] ELSE ready
        /\ Record([op |-> "poke"])
        /\ UNCHANGED <<start, diffs>>

Reload == /\ ready' = EmptyMap        \* save, load, and go on with the loaded one
          /\ Record([op |-> "reload"])
          /\ UNCHANGED <<start, diffs, held>>

Next == /\ Len(hist) < Depth
        /\ \/ \E b \in Batches : Add(b)
           \/ \E i \in 1..2 : Preload(i)
           \/ \E k \in 0..MaxSteps : Get(k)
           \/ Poke \/ Reload
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Whatever was done before, every step can be retrieved as it was recorded
Faithful == \A k \in 0..N : SameState(Retrieve(k), Step(k))
ReadyExists == DOMAIN ready \subseteq 0..N

\* The past never changes: recorded steps stay what they are
PastFixed == [][\A k \in 0..N : Fold(start', SubSeq(diffs', 1, k)) = Step(k)]_vars

Emit == Len(hist) = Depth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
