------------------------------ MODULE T_Convert -----------------------------
(* Recorded conversions between pylattica and pymatgen against Convert.    *)
(* In the specification state cur is the crystal as it is in pylattica,    *)
(* pmg as it is in pymatgen.                                               *)
EXTENDS Convert, TraceData
VARIABLES tid, pos, st, bad

Start(tr) == [cur |-> [V |-> <<>>, per |-> <<>>, sites |-> <<>>],
              pmg |-> [V |-> <<>>, per |-> <<>>, sites |-> <<>>]]
Same(a, b) == F("SameLattice", SameLattice(a, b))
              \cup (IF SameLattice(a, b) THEN F("SameSites", SameSites(a, b)) ELSE {})

Check(S, e, tr) ==
    IF e.err # "" THEN {"CallCompletes"}
    ELSE CASE e.op \in {"pyl", "pmg"} -> {}
      [] e.op = "topmg" -> Same(S.cur, e.got)
      [] e.op = "topmglat" -> F("SameLattice", SameLattice(S.cur, e.got))
      [] e.op = "topyllat" -> F("SameLattice", SameLattice(S.pmg, e.got))
      [] e.op = "topyl" ->
             Same(S.pmg, e.got)
             \* occ: the occupancy of every site, in the order of the sites
             \cup F("OccupancyIsSpecies", Len(e.occ) = Len(e.got.sites)
                      /\ \A i \in DOMAIN e.occ : e.occ[i] = e.got.sites[i].cls)
      [] e.op = "tiled" ->
             \* the builder made from a crystal tiles it
             LET big == [V |-> Scaled(S.pmg.V, e.cells), per |-> S.pmg.per, sites |-> e.got.sites]
             IN F("SameLattice", e.got.V = big.V /\ e.got.per = big.per)
                \cup F("EveryCellFilled",
                   /\ Len(e.got.sites) = Len(S.pmg.sites) * e.cells[1] * e.cells[2] * e.cells[3]
                   /\ \A i \in DOMAIN e.got.sites : \E j \in DOMAIN S.pmg.sites :
                        LET d == Sub(e.got.sites[i].loc, S.pmg.sites[j].loc)
                            c == Coefs(d, S.pmg.V)
                        IN /\ e.got.sites[i].cls = S.pmg.sites[j].cls
                           /\ \A x \in DOMAIN c : c[x] % Vol(S.pmg.V) = 0)
      [] e.op = "unchanged" -> F("ArgumentIsNotChanged", e.was = e.now)

After(S, e, tr) == CASE e.op = "pyl" -> [S EXCEPT !.cur = e.is]
                     [] e.op = "pmg" -> [S EXCEPT !.pmg = e.is]
                     [] e.op = "topmg" -> [S EXCEPT !.pmg = e.got]
                     [] e.op = "topyl" -> [S EXCEPT !.cur = e.got]
                     [] OTHER -> S
TC == INSTANCE TraceCheck WITH Traces <- Data
Spec == TC!Spec
=============================================================================
