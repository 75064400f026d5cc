----------------------------- MODULE MC_Convert -----------------------------
(* Being the same crystal is an equivalence: reordering and moving sites   *)
(* by periods can be repeated and undone, and everything else is noticed.  *)
EXTENDS Convert
CONSTANTS MaxOps
VARIABLES V, per, a, b, same, n
vars == <<V, per, a, b, same, n>>
Lattices == {<< <<2, 0>>, <<0, 1>> >>, << <<1, 1>>, <<-1, 2>> >>, << <<0, 2>>, <<1, 0>> >>}
Pts == {<<0, 0>>, <<1, 0>>, <<0, 1>>}
C(s) == [V |-> V, per |-> per, sites |-> s]
Init == /\ V \in Lattices /\ per \in [1..2 -> BOOLEAN]
        /\ a \in {s \in UNION {[1..k -> [cls : {"A", "B"}, loc : Pts]] : k \in 0..2} :
                    \A i, j \in DOMAIN s : i # j => ~Equiv(s[i].loc, s[j].loc, V, per)}
        /\ b = a /\ same = TRUE /\ n = 0
Swap == Len(b) = 2 /\ b' = <<b[2], b[1]>> /\ UNCHANGED same
Move == \E i \in DOMAIN b : \E d \in 1..2 : per[d] /\ \E z \in {-1, 1} :
           b' = [b EXCEPT ![i].loc = Add(@, [c \in 1..2 |-> z * V[d][c]])] /\ UNCHANGED same
\* a move which is none, noticed
Break == \E i \in DOMAIN b : \E d \in 1..2 : /\ ~per[d] /\ same
           /\ b' = [b EXCEPT ![i].loc = Add(@, V[d])] /\ same' = FALSE
Recls == \E i \in DOMAIN b : /\ same
           /\ b' = [b EXCEPT ![i].cls = IF @ = "A" THEN "B" ELSE "A"] /\ same' = FALSE
Next == n < MaxOps /\ n' = n + 1 /\ UNCHANGED <<V, per, a>> /\ (Swap \/ Move \/ Break \/ Recls)
Spec == Init /\ [][Next]_vars
KeptIsSame == same => SameSites(C(a), C(b)) /\ SameSites(C(b), C(a))
\* with one site a break cannot be undone by another site
BrokenIsNoticed == (~same /\ Len(a) = 1) => ~SameSites(C(a), C(b))
=============================================================================
