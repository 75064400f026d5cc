------------------------------ MODULE Convert -------------------------------
(* A crystal is a record with V (lattice vectors), per (periodic           *)
(* directions) and sites (a sequence of [cls, loc]).  Converting it to     *)
(* another package and back may reorder the sites and move them by whole   *)
(* periods, and nothing else.                                              *)
EXTENDS Geometry

SameLattice(a, b) == a.V = b.V /\ a.per = b.per
SameSite(x, y, V, per) == x.cls = y.cls /\ Equiv(x.loc, y.loc, V, per)
\* no two sites of a crystal share a location, so matching one by one is enough
SameSites(a, b) ==
    /\ Len(a.sites) = Len(b.sites)
    /\ \A i \in DOMAIN a.sites :
         Cardinality({j \in DOMAIN b.sites : SameSite(a.sites[i], b.sites[j], a.V, a.per)}) = 1
=============================================================================
