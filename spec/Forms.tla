-------------------------------- MODULE Forms -------------------------------
(* What an update rule may return, and how the answers of one synchronous  *)
(* step are merged.  Each site answers in some form; the answers are       *)
(* collected in any order and in any grouping (batches of a worker pool),  *)
(* and merged group by group.                                              *)
EXTENDS SimState, Json

CONSTANTS N                       \* sites are "1" .. "N"
Sites == {ToString(i) : i \in 1..N}
Next1(s) == IF s = ToString(N) THEN "1" ELSE CHOOSE t \in Sites :
              \E i \in 1..N : s = ToString(i) /\ t = ToString(i + 1)

Shapes == {"own", "self", "other", "both", "sites", "general", "empty", "none", "two", "new"}

\* The answer of site s in a shape: [form, v] in the sense of Normal
Answer(s, sh) ==
    LET me == "x" :> s
        ot == ("y" \o s) :> s
    IN CASE sh = "own"     -> [form |-> "own", v |-> me]
         [] sh = "self"    -> [form |-> "sites", v |-> s :> me]
         [] sh = "other"   -> [form |-> "sites", v |-> Next1(s) :> ot]
         [] sh = "both"    -> [form |-> "full", v |-> [s |-> s :> me, g |-> ("g" \o s) :> s]]
         [] sh = "sites"   -> [form |-> "full", v |-> [s |-> s :> me, g |-> EmptyMap]]
         [] sh = "general" -> [form |-> "full", v |-> [s |-> EmptyMap, g |-> ("g" \o s) :> s]]
         [] sh = "empty"   -> [form |-> "empty", v |-> EmptyMap]
         [] sh = "none"    -> [form |-> "none", v |-> EmptyMap]
         [] sh = "two"     -> [form |-> "sites", v |-> (s :> me) @@ (Next1(s) :> ot)]
         [] sh = "new"     -> [form |-> "full", v |-> [s |-> ("9" \o s) :> me, g |-> EmptyMap]]

Base == [s |-> [i \in Sites |-> (IdKey :> i) @@ ("x" :> "0") @@ ("k" :> "keep")], g |-> "c" :> "0"]

VARIABLES shape, todo, groups, merged, done
vars == <<shape, todo, groups, merged, done>>

Init == /\ shape \in [Sites -> Shapes]
        /\ todo = Sites /\ groups = <<>> /\ merged = NoUpdate /\ done = FALSE

\* A batch of answers is collected
Collect == /\ todo # {} /\ ~done
           /\ \E b \in SUBSET todo :
                /\ b # {}
                /\ \E o \in {f \in [1..Cardinality(b) -> b] : Range(f) = b} :
                     /\ groups' = Append(groups, o)
                     /\ todo' = todo \ b
           /\ UNCHANGED <<shape, merged, done>>

Upd(s) == LET a == Answer(s, shape[s]) IN Normal(a.form, a.v, s)
RECURSIVE MergeSeq(_)
MergeSeq(us) == IF us = <<>> THEN NoUpdate ELSE MergeBatch(Head(us), MergeSeq(Tail(us)))

MergeAll == /\ todo = {} /\ ~done /\ done' = TRUE
            /\ merged' = MergeSeq([i \in DOMAIN groups |->
                             MergeSeq([j \in DOMAIN groups[i] |-> Upd(groups[i][j])])])
            /\ UNCHANGED <<shape, todo, groups>>
Next == Collect \/ MergeAll
Spec == Init /\ [][Next]_vars

\* Equivalent batches, and no influence of order and grouping
Reference == MergeSeq([i \in 1..N |-> Upd(ToString(i))])
OrderIrrelevant == done => SameState(ApplyBatch(Base, merged), ApplyBatch(Base, Reference))
SameShapes == \A s \in Sites :
    LET n(sh) == LET a == Answer(s, sh) IN Normal(a.form, a.v, s)
    IN /\ SameState(ApplyBatch(Base, n("own")), ApplyBatch(Base, n("self")))
       /\ SameState(ApplyBatch(Base, n("own")), ApplyBatch(Base, n("sites")))
       /\ SameState(ApplyBatch(Base, n("empty")), Base)
       /\ SameState(ApplyBatch(Base, n("none")), Base)
Emit == (done /\ Len(groups) = 1 /\ groups[1] = [i \in 1..N |-> ToString(i)]) =>
           PrintT("SCRIPT " \o ToJson([shape |-> shape]))
=============================================================================
