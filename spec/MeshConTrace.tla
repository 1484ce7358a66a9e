---------------------------- MODULE MeshConTrace ----------------------------
(* P01: every face is attached exactly once, and to the right thing. No assumption on how the mesh came to be: every recorded
   state has to have these properties, and every update reports whether it changed the mesh. *)
EXTENDS Mesh
VARIABLES l, nel
HandleSet(m) == {m.E[i].h : i \in DOMAIN m.E}
\* operations after which the mesh is complete
Whole(e) == e.ev \notin {"add", "bc", "concar", "condef", "conhang", "conb", "place", "disconnect", "extrude"}
Surfaced(m) == m.sbc >= 0
Good(e, m) ==
  /\ Reports(m)
  /\ TreeEls(m) # {} => TreeLinks(m)
  /\ (Whole(e) /\ TreeEls(m) # {}) =>
       /\ Complete(m)
       /\ TreeConnections(m)
       /\ Ok("boundary conditions exist", \A i \in DOMAIN m.B : m.B[i].bc \in 0..(m.nbc - 1), "bc")
       \* no exposed faces unless there is a surface
       /\ ~Surfaced(m) => Ok("all elements are in the tree", XEls(m) = {} /\ \A i \in DOMAIN m.T : m.T[i].e >= 0, "x")
Step(e) ==
  IF e.ev = "reset" THEN nel' = {}
  ELSE /\ Good(e, e.m)
       /\ nel' = HandleSet(e.m)
       \* near a surface elements can be created and deleted by the same update, which then reports a change
       /\ e.ev = "update" => Ok("reported change", (nel' # nel => e.ret) /\ ((e.ret /\ ~Surfaced(e.m)) => nel' # nel),
                               <<e.ret, nel \ nel', nel' \ nel>>)
       /\ e.ev \in {"relax", "smooth", "lock", "cleanup"} => Ok("elements stay", nel' = nel, e.ev)
TInit == l = 1 /\ nel = {}
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_<<l, nel>>
=============================================================================
