----------------------------- MODULE Structure ------------------------------
(* A periodic structure under construction: sites are added one after the  *)
(* other, locations are looked up, and the structure is saved and loaded.  *)
EXTENDS Geometry, Json

CONSTANTS V, Per, Points, Classes, MaxSites, MaxOps,
          Store     \* "add": a loaded structure adds its sites in the order of their IDs
                    \* "any": (control) in any order of the saved form

VARIABLES sites,    \* sequence of [cls, loc]; the ID of a site is its index - 1
          log, last, saved
vars == <<sites, log, last, saved>>

Occupied(p) == {i \in DOMAIN sites : Equiv(sites[i].loc, p, V, Per)}
At(p) == IF Occupied(p) = {} THEN -1 ELSE (CHOOSE i \in Occupied(p) : TRUE) - 1

Init == sites = <<>> /\ log = <<>> /\ last = "none" /\ saved = FALSE

AddSite(c, p) ==
    /\ Len(log) < MaxOps
    /\ IF Occupied(p) = {} /\ Len(sites) < MaxSites
       THEN sites' = Append(sites, [cls |-> c, loc |-> Wrap(p, V, Per)]) /\ last' = "added"
       ELSE UNCHANGED sites /\ Occupied(p) # {} /\ last' = "refused"
    /\ log' = Append(log, [op |-> "add", cls |-> c, loc |-> p])
    /\ UNCHANGED saved

Perms == {f \in [DOMAIN sites -> DOMAIN sites] : Range(f) = DOMAIN sites}
Reload ==
    /\ Len(log) < MaxOps /\ sites # <<>>
    /\ IF Store = "add" THEN UNCHANGED sites
       ELSE \E f \in Perms : sites' = [i \in DOMAIN sites |-> sites[f[i]]]
    /\ last' = "loaded" /\ saved' = TRUE
    /\ log' = Append(log, [op |-> "reload"])

Next == Reload \/ \E c \in Classes, p \in Points : AddSite(c, p)
Spec == Init /\ [][Next]_vars

NoDoubleSite == \A i, j \in DOMAIN sites : i # j => ~Equiv(sites[i].loc, sites[j].loc, V, Per)
AllInCell == \A i \in DOMAIN sites : InCell(sites[i].loc, V, Per)
FindsItsSite == \A p \in Points : /\ Cardinality(Occupied(p)) <= 1
                                  /\ At(p) >= 0 => Wrap(p, V, Per) = sites[At(p) + 1].loc
IdsStay == [][\A i \in DOMAIN sites : i \in DOMAIN sites' /\ sites'[i] = sites[i]]_vars
RefusedKeeps == [][last' = "refused" => sites' = sites]_vars

Emit == Len(log) = MaxOps => PrintT("SCRIPT " \o ToJson([log |-> log, v |-> V, per |-> Per]))
=============================================================================
