---------------------------- MODULE MeshSurfTrace ----------------------------
(* P04: meshes with a surface. A leaf of the tree is `hit' (1) if the surface comes within reach of it, not hit (0), or too close to
   tell (2). *)
EXTENDS Mesh
VARIABLES l, prev
vars == <<l, prev>>
Surf(m) == m.sbc >= 0
HitOf(m) == TLCEval([x \in LeafSet(m) |-> (LET i == CHOOSE j \in DOMAIN m.T : m.T[j].l = x[1] /\ m.T[j].c = x[2] IN m.T[i].hit)])

\* ---- inserting the surface
RECURSIVE Fill(_, _, _, _)
\* leaves connected through faces within the set A of leaves, from the frontier F
Fill(n, F, done, A) ==
  LET nxt == TLCEval({z \in UNION {Adj(n, x, FaceDir(n, f), DOMAIN A) : x \in F, f \in 0..(2*n - 1)} : A[z] /\ z \notin done}) IN
  IF nxt = {} THEN done ELSE Fill(n, nxt, TLCEval(done \cup nxt), A)
\* the leaf that contains the start (in units of 2^-22 of the root; a start outside of the root means the first leaf)
Units == 4194304
StartLeaf(m, start) ==
  LET n == m.nd
      in(x) == \A i \in 1..n : LET w == Units \div Pow2[x[1]] IN x[2][i]*w <= start[i] /\ start[i] < (x[2][i] + 1)*w
      c == {x \in LeafSet(m) : in(x)}
  IN IF c = {} THEN CHOOSE x \in LeafSet(m) : \A i \in 1..n : x[2][i] = 0 ELSE CHOOSE x \in c : TRUE
\* every deletion beyond the flood fill happened next to a cell that is not in the mesh
RECURSIVE Peel(_, _, _)
Peel(n, D, gone) ==
  LET go == TLCEval({x \in D : \E d \in DirsT[n] : \E z \in Adj(n, x, d, DOMAIN gone) : gone[z]}) IN
  IF D = {} THEN {} ELSE IF go = {} THEN D
  ELSE Peel(n, TLCEval(D \ go), TLCEval([z \in DOMAIN gone |-> gone[z] \/ z \in go]))
\* configurations in which cells have to be deleted: partially covered faces, contact only along an edge or corner, edges that
\* are partially covered
Exposed(n, le, x, f) == LET y == Shift(n, x, FaceDir(n, f)) IN
  Inside(n, y) /\ \E z \in Adj(n, x, FaceDir(n, f), DOMAIN le) : le[z] < 0
Partly(S, le) == (\E z \in S : le[z] >= 0) /\ (\E z \in S : le[z] < 0)
Bad(n, le, x) ==
  \/ \E f \in 0..(2*n - 1) : LET s == Adj(n, x, FaceDir(n, f), DOMAIN le) IN Cardinality(s) > 1 /\ Partly(s, le)
  \* contact only across an edge (or corner): all faces of x that meet there are exposed, and so is the other cell there
  \/ \E d \in DirsT[n] :
       /\ NonZero(n, d) > 1
       /\ \A i \in 1..n : d[i] # 0 => Exposed(n, le, x, 2*(i - 1) + (IF d[i] > 0 THEN 1 ELSE 0))
       /\ \E z \in Adj(n, x, d, DOMAIN le) : le[z] >= 0 /\ z[1] >= x[1]
  \/ n = 3 /\ \E d \in DirsT[n] :
       /\ NonZero(n, d) = 2
       /\ \E i \in 1..n : d[i] # 0 /\ Exposed(n, le, x, 2*(i - 1) + (IF d[i] > 0 THEN 1 ELSE 0))
       /\ \E i \in 1..n : d[i] # 0 /\ ~Exposed(n, le, x, 2*(i - 1) + (IF d[i] > 0 THEN 1 ELSE 0))
       /\ Partly(Adj(n, x, d, DOMAIN le), le)
Inserted(e, p, m) ==
  LET n == m.nd IN
  \A hit \in {HitOf(m)} : \A le \in {LeafEl(m)} : \A pe \in {LeafEl(p)} : \A L \in {LeafSet(m)} :
  \A s \in {StartLeaf(m, e.start)} :
  LET els == TLCEval({x \in L : le[x] >= 0})
      \* what the fill reaches at most and at least (it starts in the leaf of the start even if the surface hits that one)
      most == TLCEval(Fill(n, {s}, {s}, TLCEval([x \in L |-> hit[x] # 1])))
      least == TLCEval(Fill(n, {s}, {s}, TLCEval([x \in L |-> hit[x] = 0])))
  IN /\ Chk("the tree is unchanged", LeafSet(p) = L, "tree")
     /\ Chk("only cells connected to the start remain", els \subseteq most, els \ most)
     /\ Chk("no new cells", \A x \in els : pe[x] >= 0, "new")
     /\ (hit[s] = 0) =>
        \A del \in {TLCEval({x \in least : le[x] < 0 /\ pe[x] >= 0})} :
          /\ Chk("cells are deleted only next to the surface", Peel(n, del, TLCEval([x \in L |-> x \notin least])) = {}, del)
          \* if no configuration requires it, nothing is deleted
          /\ LET full == TLCEval([x \in L |-> IF x \in least /\ pe[x] >= 0 THEN 0 ELSE -1]) IN
             (e.simple /\ least = most /\ ~\E x \in least : pe[x] >= 0 /\ Bad(n, full, x)) => Chk("nothing else is deleted", del = {}, del)

\* ---- at any time
Clean(m) ==
  \A le \in {LeafEl(m)} :
  LET n == m.nd
      bad == {x \in DOMAIN le : le[x] >= 0 /\ Bad(n, le, x)}
  IN /\ Chk("no element intersects the surface", \A i \in DOMAIN m.T : m.T[i].e >= 0 => m.T[i].hit # 1, {m.T[i] : i \in {j \in DOMAIN m.T : m.T[j].e >= 0 /\ m.T[j].hit = 1}})
     /\ Chk("no partially covered faces and edges, and no contact of diagonal neighbors only", bad = {}, bad)
\* one body-fitted element on each exposed face. `Layers' says whether these have been split into more layers
Covered(m) ==
  LET n == m.nd IN
  \A le \in {LeafEl(m)} :
  \A xs \in {TLCEval({<<m.X[i].p, m.X[i].pf>> : i \in DOMAIN m.X})} :
  \A expd \in {TLCEval(UNION {{<<le[x], f>> : f \in {g \in Faces(m) : Exposed(n, le, x, g)}} : x \in {y \in DOMAIN le : le[y] >= 0}})} :
  /\ Chk("exposed faces are covered by body-fitted elements", xs = expd /\ Len(m.X) = Cardinality(expd), <<xs \ expd, expd \ xs>>)
  /\ Chk("body-fitted elements", {m.X[i].x : i \in DOMAIN m.X} = XEls(m), XEls(m))
Attached(m) ==
  LET n == m.nd IN
  \A cc \in {TLCEval(TLCEval({<<m.C[i].a, m.C[i].af, m.C[i].b, m.C[i].bf>> : i \in DOMAIN m.C}) \cup {<<m.C[i].b, m.C[i].bf, m.C[i].a, m.C[i].af>> : i \in DOMAIN m.C})} :
  \A bb \in {TLCEval({<<m.B[i].e, m.B[i].f, m.B[i].bc>> : i \in DOMAIN m.B})} :
  \A hs \in {TLCEval(TLCEval({<<m.H[i].co, m.H[i].cf>> : i \in DOMAIN m.H}) \cup {<<m.H[q[1]].fine[q[2]], m.H[q[1]].ff>> : q \in HF(m)})} :
  \A i \in DOMAIN m.X :
    LET r == m.X[i]  x == r.x  p == r.p IN
    /\ Chk("body-fitted elements and their parents are deformed", El(m, x).def /\ ~El(m, x).tree /\ El(m, p).def /\ El(m, p).tree, r)
    /\ Chk("same size as the parent", El(m, x).rl = El(m, p).rl, r)
    /\ Chk("connected to the parent", <<x, r.xf, p, r.pf>> \in cc, r)
    /\ Chk("surface", <<x, Opp(r.xf), m.sbc>> \in bb, r)
    /\ \A f \in Faces(m) : Dim(f) # Dim(r.xf) =>
         \/ \E q \in cc : q[1] = x /\ q[2] = f /\ ~El(m, q[3]).tree
         \/ <<x, f>> \in hs
         \* the boundary condition of the parent on that side, never that of the surface
         \/ (Dim(r.xf) = Dim(r.pf) /\ \E b \in bb : b[1] = x /\ b[2] = f /\ b[3] # m.sbc /\ <<p, f, b[3]>> \in bb)
         \/ Chk("sides of body-fitted elements", FALSE, <<r, f, {b \in bb : b[1] = x}>>)
    /\ Chk("nothing else lies on the surface", \A b \in bb : b[3] = m.sbc => ~El(m, b[1]).tree, "surface")
Step(e) ==
  IF e.ev = "reset" THEN prev' = <<>>
  ELSE /\ prev' = e.m
       /\ e.ev = "surface" => Inserted(e, prev, e.m)
       /\ (Surf(e.m) /\ e.ev \in {"surface", "update", "relax", "cleanup", "lock"}) => Clean(e.m) /\ Covered(e.m) /\ Attached(e.m)
TInit == l = 1 /\ prev = <<>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
