------------------------------ MODULE Analysis ------------------------------
(* What analyzers say about a state (a map from sites to maps of values)   *)
(* and about a result (a sequence of states).                              *)
EXTENDS Util

\* A criterion is [k, in, absent]: the value of k is one of in, or k is absent
Meets(m, q) == IF q.k \in DOMAIN m THEN m[q.k] \in Range(q.in) ELSE q.absent
HasAll(m, pairs) == \A k \in DOMAIN pairs : k \in DOMAIN m /\ m[k] = pairs[k]

\* struct: sequence of [id, cls], or nothing to consider all sites of the state
Considered(s, hasStruct, struct, cls) ==
    IF ~hasStruct THEN DOMAIN s
    ELSE {struct[x].id : x \in {x \in DOMAIN struct : cls = "" \/ struct[x].cls = cls}}
Matching(s, hasStruct, struct, cls, crits, pairs) ==
    {i \in Considered(s, hasStruct, struct, cls) :
        HasAll(s[i], pairs) /\ \A x \in DOMAIN crits : Meets(s[i], crits[x])}

\* Phases: c maps sites to phases
CountPhase(c, p) == Cardinality({i \in DOMAIN c : c[i] = p})
Present(c) == Range(c)
\* a fraction given as <<num, den>>
SameFraction(f, a, b) == f[1] * b = a * f[2]
FractionOk(f, c, p) == SameFraction(f, CountPhase(c, p), Cardinality(DOMAIN c))
\* a > b for fractions
Above(a, b) == a[1] * b[2] > b[1] * a[2]

Put(c, u) == [i \in DOMAIN c |-> IF i \in DOMAIN u THEN u[i] ELSE c[i]]
RECURSIVE StepsFrom(_, _)
StepsFrom(c, us) ==
    IF us = <<>> THEN <<c>> ELSE IF Len(us) = 1 THEN <<c, Put(c, us[1])>>
    ELSE LET h == Len(us) \div 2
             A == StepsFrom(c, SubSeq(us, 1, h))
         IN A \o Tail(StepsFrom(A[h + 1], SubSeq(us, h + 1, Len(us))))
Ever(steps) == UNION {Present(steps[x]) : x \in DOMAIN steps}
=============================================================================
