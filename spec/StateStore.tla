----------------------------- MODULE StateStore ----------------------------
(* A population of simulation states that are updated, copied and loaded.  *)
(* Each state is a value: no action on one of them can change another.     *)
EXTENDS SimState, Json

CONSTANTS Ops,      \* the operations to interleave
          Depth     \* how many of them

VARIABLES store,    \* map from handles to contents
          hist      \* the operations done so far

Init == store = ("a" :> EmptyState) /\ hist = <<>>

Enabled(o) == /\ o.h \in DOMAIN store
              /\ o.op = "poke" => (o.id \in DOMAIN store[o.h].s
                                   /\ o.k \in DOMAIN store[o.h].s[o.id])

\* The content of the state an operation is done on (or makes), afterwards
Effect(S, o) ==
    CASE o.op = "set"   -> SetSite(S, o.id, o.u)
      [] o.op = "gen"   -> SetGeneral(S, o.u)
      [] o.op = "batch" -> ApplyBatch(S, [s |-> o.s, g |-> o.g])
      [] o.op = "poke"  -> [S EXCEPT !.s[o.id][o.k] = "poked"]
      [] o.op \in {"copy", "load"} -> S

Target(o) == IF o.op \in {"copy", "load"} THEN o.h2 ELSE o.h

Do(o) == /\ Len(hist) < Depth
         /\ Enabled(o)
         /\ store' = (Target(o) :> Effect(store[o.h], o)) @@ store
         /\ hist' = Append(hist, o)

Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_<<store, hist>>

----------------------------------------------------------------------------
TypeOK == \A h \in DOMAIN store : DOMAIN store[h] = {"s", "g"}

\* Every site that is there carries its own ID
IdsRecorded == \A h \in DOMAIN store : \A i \in DOMAIN store[h].s :
                  IdKey \in DOMAIN store[h].s[i] /\ store[h].s[i][IdKey] = i

\* Nothing disappears, and only the named keys of the target change
Frame == \A h \in DOMAIN store : \A o \in {hist'[Len(hist')]} :
    IF h # Target(o) THEN store'[h] = store[h]
    ELSE o.op \notin {"copy", "load"} =>
       /\ DOMAIN store[h].s \subseteq DOMAIN store'[h].s
       /\ \A i \in DOMAIN store[h].s : \A k \in DOMAIN store[h].s[i] :
             \/ store'[h].s[i][k] = store[h].s[i][k]
             \/ o.op = "set" /\ i = o.id /\ k \in DOMAIN o.u
             \/ o.op = "poke" /\ i = o.id /\ k = o.k
             \/ o.op = "batch" /\ i \in DOMAIN o.s /\ k \in DOMAIN o.s[i]
       /\ \A k \in DOMAIN store[h].g :
             \/ store'[h].g[k] = store[h].g[k]
             \/ o.op = "gen" /\ k \in DOMAIN o.u
             \/ o.op = "batch" /\ k \in DOMAIN o.g
FrameProperty == [][Frame]_<<store, hist>>

\* A batch is the same as its parts one after the other, in any order
BatchIsParts == \A h \in DOMAIN store : \A o \in Ops : o.op = "batch" =>
    LET whole == ApplyBatch(store[h], [s |-> o.s, g |-> o.g])
        RECURSIVE parts(_, _)
        parts(S, ids) == IF ids = {} THEN SetGeneral(S, o.g)
                         ELSE LET i == CHOOSE i \in ids : TRUE
                              IN parts(SetSite(S, i, o.s[i]), ids \ {i})
    IN SameState(whole, parts(store[h], DOMAIN o.s))

Emit == Len(hist) = Depth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
