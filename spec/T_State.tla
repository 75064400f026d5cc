------------------------------ MODULE T_State ------------------------------
(* Recorded executions of SimulationState against SimState.                *)
(* After every event, e.obs gives the contents of all objects (states, and *)
(* the dictionaries that states were constructed from).                    *)
EXTENDS SimState, TraceData
VARIABLES tid, pos, st, bad

Start(tr) == EmptyMap      \* map from handles to contents

Expected(S, e) ==
    CASE e.op = "new"   -> EmptyState
      [] e.op = "dict"  -> e.c           \* a dictionary made by the driver
      [] e.op = "struct" -> [s |-> [i \in Range(e.ids) |-> (IdKey :> i)], g |-> EmptyMap]
      [] e.op = "set"   -> SetSite(S[e.h], e.id, e.u)
      [] e.op = "gen"   -> SetGeneral(S[e.h], e.u)
      [] e.op = "batch" -> ApplyBatch(S[e.h], [s |-> e.s, g |-> e.g])
      [] e.op \in {"copy", "load"} -> S[e.h]
      [] e.op = "poke"  -> e.obs[e.h]    \* what it does to the object itself is open

Target(e) == IF e.op \in {"copy", "load"} THEN e.h2 ELSE e.h

Check(S, e, tr) ==
    IF e.err # "" THEN {"CallCompletes"}
    ELSE IF e.op = "read" THEN
        LET c == S[e.h] IN
        F("SiteIdsListed", NoDup(e.ids) /\ Range(e.ids) = DOMAIN c.s)
        \cup F("SizeIsSites", e.size = Cardinality(DOMAIN c.s))
        \cup F("AllSiteStates",
               /\ Len(e.all) = Cardinality(DOMAIN c.s)
               /\ \A i \in DOMAIN e.all :
                      Cardinality({j \in DOMAIN e.all : SameMap(e.all[j], e.all[i])})
                    = Cardinality({x \in DOMAIN c.s : SameMap(c.s[x], e.all[i])}))
        \cup F("UnknownSiteIsNone", e.unknown)
        \cup F("Equality", \A i \in DOMAIN e.eq :
               e.eq[i].r = SameState(c, S[e.eq[i].h]))
    \* a dictionary that was used in updates is changed by its owner
    ELSE IF e.op = "aside" THEN
        F("OthersUntouched", /\ DOMAIN e.obs = DOMAIN S
                             /\ \A h \in DOMAIN S : SameState(e.obs[h], S[h]))
    ELSE
        LET t == Target(e) IN
        F("ObjectsKnown", DOMAIN e.obs = DOMAIN S \cup {t})
        \cup (IF t \in DOMAIN e.obs
              THEN F("NamedKeysChange", SameState(e.obs[t], Expected(S, e))) ELSE {})
        \cup F("OthersUntouched", \A h \in DOMAIN S \ {t} :
                  h \in DOMAIN e.obs /\ SameState(e.obs[h], S[h]))

After(S, e, tr) == IF e.op \in {"read", "aside"} THEN S
                   ELSE (Target(e) :> Expected(S, e)) @@ S

TC == INSTANCE TraceCheck WITH Traces <- Data
Spec == TC!Spec
=============================================================================
