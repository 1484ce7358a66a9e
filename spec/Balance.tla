------------------------------ MODULE Balance ------------------------------
(* P20. What iterating does to the contents of a domain, for any mesh. BalanceMC explains why this follows from the way in which
   cells exchange fluxes.
   A closed domain has only walls (slip, or adiabatic without slip): mass and energy stay the same if all cells take the same time
   step, and the rates of change in all cells add up to zero in any case. The fluid at rest stays at rest, and a uniform flow stays uniform if all
   boundaries let it pass. (In 3D, next to a curved surface, faces of cells do not close exactly, see DESIGN.md: `exact` is FALSE.) *)
EXTENDS Integers, Sequences
VARIABLES
  dom,   \* [closed, local, exact]: the boundaries, the kind of time steps, the geometry
  flow,  \* "none", "flow": uniform with the velocity of the boundary conditions, "rest", "any"
  tot,   \* contents at the last initialization or restart
  files  \* name -> what was saved
bvars == <<dom, flow, tot, files>>
Begin(d) == dom' = d /\ flow' = "none" /\ tot' = <<>> /\ files' = <<>>
KindOf(s) == IF s = 0 THEN "flow" ELSE IF s = -1 THEN "rest" ELSE "any"
\* t: the contents which are observed
Start(s, t) == flow' = KindOf(s) /\ tot' = t /\ UNCHANGED <<dom, files>>
Undisturbed(f) == dom.exact /\ ((f = "flow" /\ ~dom.closed) \/ (f = "rest" /\ dom.closed))
March == flow # "none" /\ flow' = (IF Undisturbed(flow) THEN flow ELSE "any") /\ UNCHANGED <<dom, tot, files>>
Save(f, Put(_, _, _)) == files' = Put(files, f, [flow |-> flow, tot |-> tot, dom |-> dom]) /\ UNCHANGED <<dom, flow, tot>>
Restart(f) == f \in DOMAIN files /\ flow' = files[f].flow /\ tot' = files[f].tot /\ UNCHANGED <<dom, files>>
Other == UNCHANGED bvars
\* ---- what the observation has to satisfy in a state
SameTotal == dom.closed /\ ~dom.local
ZeroSum == dom.closed
=============================================================================
