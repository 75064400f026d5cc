------------------------------ MODULE MC_History ----------------------------
EXTENDS History
MCBatches == { [s |-> "0" :> ("x" :> "1"), g |-> EmptyMap],
               [s |-> "1" :> ("y" :> "2"), g |-> "x" :> "3"] }
=============================================================================
