---------------------------- MODULE MC_Nucleation ---------------------------
(* How nuclei are shared out and placed.  First every phase gets the whole *)
(* part of its share, and the phases with the largest remainders the rest  *)
(* (Method = "remainder"; "robin", one after the other as long as below    *)
(* the share, is not within one of the shares).  Then sites are tried at   *)
(* random, up to Tries of them.                                            *)
EXTENDS Setups
CONSTANTS W, H, Buffer, MaxWant, MaxAmt, Method, Tries
VARIABLES amt, want, counts, todo, s, tries, pc
vars == <<amt, want, counts, todo, s, tries, pc>>
BG == "_"
P == {"a", "b", "c"}
Order == <<"a", "b", "c">>
NN == <<W, H>>
L == [i \in 1..(W * H) |-> <<(i - 1) \div H, (i - 1) % H>>]
Total == amt["a"] + amt["b"] + amt["c"]
Share(p) == [p |-> p, num |-> amt[p], den |-> Total]

Init == /\ amt \in [P -> 0..MaxAmt] /\ \E p \in P : amt[p] > 0
        /\ want \in 0..MaxWant
        /\ counts = [p \in P |-> 0] /\ todo = <<>> /\ s = [i \in DOMAIN L |-> BG]
        /\ tries = 0 /\ pc = "share"
Floor(p) == (amt[p] * want) \div Total
Rem(p) == (amt[p] * want) % Total
Left == want - SumSeq([i \in 1..3 |-> Floor(Order[i])])
\* any set of Left phases such that none outside has a larger remainder
Chosen == {S \in SUBSET P : /\ Cardinality(S) = Left
                            /\ \A p \in S, q \in P \ S : Rem(p) >= Rem(q)}
RECURSIVE Robin(_, _)
Robin(c, k) == IF SumSeq([i \in 1..3 |-> c[Order[i]]]) >= want THEN c
               ELSE LET p == Order[(k % 3) + 1]
                    IN Robin(IF c[p] * Total < amt[p] * want THEN [c EXCEPT ![p] = @ + 1] ELSE c, k + 1)
ShareOut == /\ pc = "share" /\ pc' = "place"
            /\ IF Method = "robin" THEN counts' = Robin(counts, 0)
               ELSE \E S \in Chosen :
                        counts' = [p \in P |-> Floor(p) + IF p \in S THEN 1 ELSE 0]
            /\ todo' = <<>>
            /\ UNCHANGED <<amt, want, s, tries>>
Placed == Cardinality(Nuclei(s, BG))
Try == /\ pc = "place" /\ Placed < want
       /\ IF tries >= Tries THEN pc' = "refused" /\ UNCHANGED <<s, tries, counts>>
          ELSE \E i \in DOMAIN L :
                 /\ tries' = tries + 1 /\ UNCHANGED pc
                 /\ IF /\ s[i] = BG
                       /\ \A j \in Nuclei(s, BG) : ChebOn(L, NN, i, j) > Buffer
                    THEN \E p \in P : /\ CountP(s, p) < counts[p]
                                      /\ s' = [s EXCEPT ![i] = p]
                                      /\ UNCHANGED counts
                    ELSE UNCHANGED <<s, counts>>
       /\ UNCHANGED <<amt, want, todo>>
Finish == /\ pc = "place" /\ Placed = want /\ pc' = "done"
          /\ UNCHANGED <<amt, want, counts, todo, s, tries>>
Next == ShareOut \/ Try \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InQuota == pc # "share" => \A p \in P : Quota(counts[p], Share(p), want)
AllShared == pc # "share" => SumSeq([i \in 1..3 |-> counts[Order[i]]]) = want
DoneRight == pc = "done" => /\ Placed = want /\ Apart(L, NN, s, BG, Buffer)
                            /\ \A p \in P : CountP(s, p) = counts[p]
\* only requests without room for all choices can be refused for other reasons than luck
CannotFit == want > W * H => pc # "done"
Ends == <>(pc \in {"done", "refused"})
=============================================================================
