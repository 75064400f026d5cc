------------------------------- MODULE Util --------------------------------
(* Small helpers shared by every module of the specification.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Over(f, g): the map f with the entries of g put over it.
Over(f, g) == g @@ f

EmptyMap == [x \in {} |-> x]

\* Two maps are the same map (an empty map may come as an empty sequence).
SameMap(f, g) == /\ DOMAIN f = DOMAIN g
                 /\ \A x \in DOMAIN f : f[x] = g[x]

Range(f) == {f[x] : x \in DOMAIN f}

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0
             ELSE LET x == CHOOSE x \in S : TRUE IN x + SumSet(S \ {x})

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Abs(x) == IF x < 0 THEN -x ELSE x
CeilDiv(a, b) == -((-a) \div b)          \* b > 0

NoDup(s) == Cardinality(Range(s)) = Len(s)

\* One named clause of a conformance condition: the set of the names that fail.
F(name, cond) == IF cond THEN {} ELSE {name}
=============================================================================
