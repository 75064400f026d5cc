---------------------------- MODULE MC_StateStore ---------------------------
EXTENDS StateStore

set(h, id, u) == [op |-> "set", h |-> h, id |-> id, u |-> u]
gen(h, u) == [op |-> "gen", h |-> h, u |-> u]
batch(h, form, s, g) == [op |-> "batch", h |-> h, form |-> form, s |-> s, g |-> g]
copy(h, k) == [op |-> "copy", h |-> h, h2 |-> k]
load(h, k) == [op |-> "load", h |-> h, h2 |-> k]
poke(h, id, k) == [op |-> "poke", h |-> h, id |-> id, k |-> k]

MCOps ==
  { set("a", "0", "x" :> "[1]"), set("b", "0", "y" :> "[2]"), set("a", "7", EmptyMap),
    gen("a", "x" :> "1"), gen("b", "y" :> "2"),
    batch("a", "map", ("0" :> ("y" :> "[3]")) @@ ("1" :> ("x" :> "[4]")), EmptyMap),
    batch("b", "full", "0" :> ("x" :> "[5]"), "x" :> "3"),
    batch("a", "sites", "1" :> ("y" :> "[6]"), EmptyMap),
    batch("b", "general", EmptyMap, "y" :> "4"),
    copy("a", "b"), copy("b", "a"), load("a", "b"),
    poke("a", "0", "x"), poke("b", "0", "x"), poke("b", "1", "x") }
=============================================================================
