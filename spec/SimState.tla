------------------------------ MODULE SimState -----------------------------
(* The content of a simulation state and what the three kinds of update do *)
(* to it.  A content is a record with                                      *)
(*    s : a map from site IDs to maps from keys to values                  *)
(*    g : the map of the general state.                                    *)
(* Site IDs are written as decimal strings; a value is its canonical JSON  *)
(* text, so the value of the reserved key is the ID itself.                *)
EXTENDS Util

IdKey == "_site_id"
EmptyState == [s |-> EmptyMap, g |-> EmptyMap]

SameState(a, b) == /\ DOMAIN a.s = DOMAIN b.s
                   /\ \A i \in DOMAIN a.s : SameMap(a.s[i], b.s[i])
                   /\ SameMap(a.g, b.g)

OldSite(S, id) == IF id \in DOMAIN S.s THEN S.s[id] ELSE (IdKey :> id)

SetSite(S, id, u) == [S EXCEPT !.s = (id :> Over(OldSite(S, id), u)) @@ S.s]
SetGeneral(S, u)  == [S EXCEPT !.g = Over(S.g, u)]

\* A batch, in normal form [s |-> site updates, g |-> general updates]
ApplyBatch(S, U) ==
    [s |-> [i \in DOMAIN S.s \cup DOMAIN U.s |->
               IF i \in DOMAIN U.s THEN Over(OldSite(S, i), U.s[i]) ELSE S.s[i]],
     g |-> Over(S.g, U.g)]

NoUpdate == [s |-> EmptyMap, g |-> EmptyMap]

\* Merging two batches that do not write the same key of the same site
MergeBatch(U, V) ==
    [s |-> [i \in DOMAIN U.s \cup DOMAIN V.s |->
               IF i \in DOMAIN U.s /\ i \in DOMAIN V.s THEN Over(U.s[i], V.s[i])
               ELSE IF i \in DOMAIN V.s THEN V.s[i] ELSE U.s[i]],
     g |-> Over(U.g, V.g)]

\* What an update rule may return, with the site it was applied to:
\*   form "own"   : v is the map of new values for the site itself
\*   form "sites" : v is a map from site IDs to maps
\*   form "full"  : v has the parts in v.s and v.g (each empty when absent)
\*   form "empty" and "none" : an empty map, nothing
Normal(form, v, site) ==
    CASE form = "own"   -> [s |-> (site :> v), g |-> EmptyMap]
      [] form = "sites" -> [s |-> v, g |-> EmptyMap]
      [] form = "full"  -> [s |-> v.s, g |-> v.g]
      [] form \in {"empty", "none"} -> NoUpdate

RECURSIVE Fold(_, _)
\* The state after applying a sequence of batches in order
Fold(S, us) == IF us = <<>> THEN S ELSE Fold(ApplyBatch(S, Head(us)), Tail(us))
=============================================================================
