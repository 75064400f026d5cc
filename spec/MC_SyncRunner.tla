---- MODULE MC_SyncRunner ----
EXTENDS SyncRunner, Json
\* Every rule with every starting configuration, for replay in the real runners
ScriptSpec == Init /\ [][FALSE]_vars
Emit == PrintT("SCRIPT " \o ToJson([
            rule |-> [x \in {"0", "1"} |-> [l \in {"0", "1"} |->
                        rule[<<IF x = "0" THEN 0 ELSE 1, IF l = "0" THEN 0 ELSE 1>>]]],
            init |-> [i \in 1..NSites |-> init[i - 1]]]))
====
