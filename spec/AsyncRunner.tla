----------------------------- MODULE AsyncRunner ----------------------------
(* The asynchronous simulation: one site at a time, from a first-in        *)
(* first-out queue.  The controller (environment) may answer anything: the *)
(* update, the sites to visit next, and the sites it hands out when asked. *)
EXTENDS Util, Json

CONSTANTS Sites, MaxSteps, Depth,
          Queue     \* "fifo"; "lifo" and "unique" are controls

VARIABLES val,      \* the live state: site -> value
          queue,    \* sites still to be visited
          n,        \* steps requested
          steps,    \* recorded states
          visited,  \* sites applied so far, in order
          joined,   \* every site that ever joined the queue, in order
          phase,    \* "ask", "go", "ended", "refused"
          script    \* what the controller did
vars == <<val, queue, n, steps, visited, joined, phase, script>>

Handouts == {<<>>} \cup {<<a>> : a \in Sites} \cup {<<a, b>> : a, b \in Sites}
Follows == {<<>>} \cup {<<a>> : a \in Sites} \cup {<<a, b>> : a, b \in Sites}
\* An update writes to one of the sites, or nowhere
Targets == Sites \cup {0}         \* sites are positive

Join(q, s) == CASE Queue = "fifo" -> q \o s
                [] Queue = "lifo" -> s \o q
                [] Queue = "unique" -> q \o SelectSeq(s, LAMBDA x : x \notin Range(q))

Init == /\ val = [s \in Sites |-> 0] /\ queue = <<>> /\ n \in 0..MaxSteps
        /\ steps = <<val>> /\ visited = <<>> /\ joined = <<>> /\ phase = "ask"
        /\ script = <<>>

Ask == /\ phase = "ask" /\ queue = <<>>
       /\ \E h \in Handouts :
            /\ queue' = h
            /\ joined' = joined \o h
            /\ phase' = IF h # <<>> THEN "go" ELSE IF visited = <<>> THEN "refused" ELSE "ended"
            /\ script' = Append(script, [op |-> "ask", sites |-> h])
       /\ UNCHANGED <<val, n, steps, visited>>

Step == /\ phase = "go" /\ Len(visited) < n /\ queue # <<>>
        /\ \E t \in Targets, f \in Follows :
             LET v == [s \in Sites |-> IF s = t THEN Len(steps) ELSE val[s]]
                 q == Join(Tail(queue), f)
             IN /\ val' = v /\ steps' = Append(steps, v)
                /\ queue' = q /\ joined' = joined \o f
                /\ phase' = IF q = <<>> /\ Len(visited) + 1 < n THEN "ask" ELSE "go"
                /\ script' = Append(script, [op |-> "call", target |-> t, next |-> f])
        /\ visited' = Append(visited, Head(queue))
        /\ UNCHANGED n

End == /\ phase = "go" /\ Len(visited) = n /\ phase' = "ended"
       /\ UNCHANGED <<val, queue, n, steps, visited, joined, script>>

Next == Ask \/ Step \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Fifo == visited \o queue = joined
OneStepPerVisit == Len(steps) = Len(visited) + 1
LastIsLive == steps[Len(steps)] = val
EndsForAReason == phase = "ended" => Len(visited) = n \/ queue = <<>>
RefusesWithoutSites == phase = "refused" <=>
    (visited = <<>> /\ queue = <<>> /\ script # <<>>)
OneSitePerStep == [][steps' # steps =>
    /\ Len(steps') = Len(steps) + 1
    /\ Cardinality({s \in Sites : val'[s] # val[s]}) <= 1]_vars
Finishes == <>(phase \in {"ended", "refused"})

Emit == (phase \in {"ended", "refused"} /\ n = MaxSteps) =>
           PrintT("SCRIPT " \o ToJson([n |-> n, script |-> script]))
=============================================================================
