----------------------------- MODULE TraceCheck ----------------------------
(* Trace validation: each behaviour of this specification walks along one  *)
(* recorded execution of the real code.  In every step, Check gives the    *)
(* names of the clauses of the system specification that the recorded      *)
(* event breaks in the current specification state, and After the          *)
(* specification state it leads to.  An execution is accepted when it can  *)
(* be walked to its end; the verdict on every execution is printed, so     *)
(* that one run of TLC judges the whole batch.                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Traces, Start(_), Check(_, _, _), After(_, _, _)
VARIABLES tid, pos, st, bad

vars == <<tid, pos, st, bad>>
Tr == Traces[tid]
Done == pos > Len(Tr.ev) \/ bad # {}

Init == /\ tid \in DOMAIN Traces
        /\ pos = 1
        /\ bad = IF Tr.crash = "" THEN {} ELSE {"CallCompletes"}
        /\ st = IF Tr.crash = "" THEN Start(Tr) ELSE "none"

Walk == /\ pos >= 1 /\ ~Done
        /\ LET e == Tr.ev[pos]
               f == Check(st, e, Tr)
           IN  /\ bad' = f
               /\ pos' = IF f = {} THEN pos + 1 ELSE pos
               /\ st' = IF f = {} THEN After(st, e, Tr) ELSE st
        /\ UNCHANGED tid

Report == /\ pos >= 1 /\ Done
          /\ PrintT("VERDICT " \o ToJson([id |-> Tr.id, ok |-> bad = {},
                                          pos |-> pos, bad |-> bad]))
          /\ pos' = 0
          /\ UNCHANGED <<tid, st, bad>>

Next == Walk \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
