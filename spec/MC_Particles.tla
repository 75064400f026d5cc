----------------------------- MODULE MC_Particles ---------------------------
(* Particles on every grid up to a size: what lies inside is within reach  *)
(* over the edges, for a particle in the middle they are the same, they    *)
(* grow with the radius, and later particles hide earlier ones.            *)
EXTENDS Setups
CONSTANTS MaxN, MaxLim, D
VARIABLES n, c2, lim, pc
vars == <<n, c2, lim, pc>>
NN == [c \in 1..D |-> n]
RECURSIVE Pts(_)
Pts(d) == IF d = 0 THEN {<<>>} ELSE {Append(p, x) : p \in Pts(d - 1), x \in 0..(n - 1)}
RECURSIVE Enum(_)
Enum(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN Append(Enum(S \ {x}), x)
L == Enum(Pts(D))
Middle == [c \in 1..D |-> n]
Init == n \in 1..MaxN /\ c2 = <<>> /\ lim = 0 /\ pc = 0
Next == /\ pc = 0 /\ pc' = 1 /\ UNCHANGED n
        /\ c2' \in [1..D -> 0..(2 * n - 1)] \cup {Middle}
        /\ lim' \in 0..MaxLim
Spec == Init /\ [][Next]_vars
On == pc = 1
Within == On => \A i \in DOMAIN L : Inside(L, c2, lim, i) => Reach(L, NN, c2, lim, i)
MiddleSame == On /\ c2 = Middle =>
    \A i \in DOMAIN L : Inside(L, c2, lim, i) = Reach(L, NN, c2, lim, i)
Grows == On => \A i \in DOMAIN L : Inside(L, c2, lim, i) => Inside(L, c2, lim + 1, i)
Blank == [i \in DOMAIN L |-> "_"]
X(p, l) == [c2 |-> c2, lim |-> l, p |-> p]
Hides == On => \A i \in DOMAIN L :
    /\ Inside(L, c2, lim, i) =>
         AfterParticles(L, NN, Blank, <<X("a", lim + 3), X("b", lim)>>, i) = {"b"}
    /\ Inside(L, c2, lim, i) =>
         AfterParticles(L, NN, Blank, <<X("b", lim), X("a", lim + 3)>>, i) = {"a"}
Split == On => LET left == {i \in DOMAIN L : L[i][1] < n \div 2}
               IN 2 * Cardinality(left) <= Len(L) /\ (n % 2 = 0 => 2 * Cardinality(left) = Len(L))
=============================================================================
