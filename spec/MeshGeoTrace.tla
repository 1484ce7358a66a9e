---------------------------- MODULE MeshGeoTrace ----------------------------
(* P02: connected faces coincide. Recorded meshes are checked clause by clause.

   Known finding (see DESIGN.md): in 3D, a vertex of an undeformed cell which hangs on a face of a coarser deformed cell is dragged
   along when smoothing moves the corners of that face. STRICT=1 turns the exemption for exactly those vertices off. *)
EXTENDS Mesh, IOUtils
VARIABLE l
Strict == "STRICT" \in DOMAIN IOEnv /\ IOEnv.STRICT = "1"
Whole(e) == e.ev \notin {"add", "bc", "concar", "condef", "conhang", "conb", "place", "disconnect", "extrude"}
\* vertices which hang on a coarser deformed face: of a fine face, but not corners of the coarse one
Hanging(m) == UNION {UNION {FaceVerts(m, m.H[i].fine[k], m.H[i].ff) : k \in DOMAIN m.H[i].fine} \ FaceVerts(m, m.H[i].co, m.H[i].cf)
                     : i \in {j \in DOMAIN m.H : El(m, m.H[j].co).def}}
Want(m, e, k, d) == (e.c[d] + (((k - 1) \div Pow2[m.nd - d]) % 2))*e.sz
Off(m) == TLCEval({m.E[q[1]].v[q[2]] : q \in {p \in {i \in DOMAIN m.E : m.E[i].tree /\ ~m.E[i].def} \X (1..Pow2[m.nd]) :
            \E d \in 1..m.nd : Abs(m.P[m.E[p[1]].v[p[2]] + 1][d] - Want(m, m.E[p[1]], p[2], d)) > 2}})
Step(e) ==
  e.ev = "reset" \/
  \A m \in {e.m} : \A off \in {IF Whole(e) THEN Off(m) ELSE {}} :
   LET Exempt == IF Strict \/ m.nd < 3 \/ m.sbc < 0 \/ off = {} THEN {} ELSE off \cap Hanging(m) IN
   \A ex \in {TLCEval(Exempt)} :
   /\ Vertices(m)
   /\ Ok("undeformed vertices are at their nominal positions", off \subseteq ex, off \ ex)
   /\ Shared(m)
   /\ Tiled(m, 20)
   /\ \A bad \in {{j \in DOMAIN m.C : m.C[j].gap > 20}} :
      Ok("conformally connected faces match node by node",
         \A j \in bad : FaceVerts(m, m.C[j].a, m.C[j].af) \cap ex # {}, {m.C[j] : j \in bad})
   /\ (Whole(e) /\ m.nd < 3 /\ m.sbc < 0 /\ TreeEls(m) # {}) => NoDuplicates(m)
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_l
=============================================================================
