-------------------------------- MODULE Mesh --------------------------------
(* The structure of a mesh as a user can observe it: a record m of elements, tree leaves, connections and boundary
   attachments (see harness/mesh.cpp), and what has to be true of it. Elements and vertices are numbered from 0. *)
EXTENDS Integers, Sequences, FiniteSets, TraceLib

Pow2 == [i \in 0..30 |-> 2^i]
N(m) == Len(m.E)
El(m, i) == m.E[i + 1]
NF(m) == 2*m.nd
Faces(m) == 0..(2*m.nd - 1)
Opp(f) == IF f % 2 = 0 THEN f + 1 ELSE f - 1
Dim(f) == f \div 2                        \* from 0
Sgn(f) == 2*(f % 2) - 1
TreeEls(m) == {i \in 0..(N(m) - 1) : El(m, i).tree}
XEls(m) == {i \in 0..(N(m) - 1) : ~El(m, i).tree}
CellOf(e) == <<e.rl, e.c>>

\* ---- which faces are attached to something, and to what
\* (TLCEval: sets are sorted once, so that unions and membership tests are fast)
UsesC(m) == TLCEval(TLCEval({<<m.C[i].a, m.C[i].af>> : i \in DOMAIN m.C}) \cup {<<m.C[i].b, m.C[i].bf>> : i \in DOMAIN m.C})
HF(m) == {q \in (DOMAIN m.H) \X (1..4) : q[2] \in DOMAIN m.H[q[1]].fine}
UsesH(m) == TLCEval(TLCEval({<<m.H[i].co, m.H[i].cf>> : i \in DOMAIN m.H}) \cup {<<m.H[q[1]].fine[q[2]], m.H[q[1]].ff>> : q \in HF(m)})
UsesB(m) == TLCEval({<<m.B[i].e, m.B[i].f>> : i \in DOMAIN m.B})
NUses(m) == 2*Len(m.C) + Len(m.H) + Cardinality(HF(m)) + Len(m.B)
Used(m) == TLCEval(TLCEval(UsesC(m) \cup UsesH(m)) \cup UsesB(m))
AllFaces(m) == (0..(N(m) - 1)) \X Faces(m)

Ok(name, c, ctx) == Chk(name, c, ctx)
\* the counts and reports are about the actual structure
Reports(m) ==
  /\ Ok("counts", m.n = N(m) /\ m.nh = N(m) /\ m.ncar = Cardinality({i \in DOMAIN m.E : ~m.E[i].def}), <<m.n, m.nh, m.ncar>>)
  /\ Ok("handles are distinct", Cardinality({m.E[i].h : i \in DOMAIN m.E}) = N(m), "h")
  /\ Ok("handles name the elements", \A i \in DOMAIN m.E : m.E[i].h[1] = m.E[i].rl /\ (m.E[i].h[2] = 1) = m.E[i].def /\ m.E[i].h[3] >= 0, "h")
  /\ \A u \in {Used(m)} :          \* (a bound variable is evaluated once)
       /\ Ok("attached faces are faces of the mesh", u \subseteq AllFaces(m), u \ AllFaces(m))
       /\ Ok("missing", m.missing = N(m)*NF(m) - Cardinality(u), <<m.missing, N(m)*NF(m) - Cardinality(u)>>)
       /\ Ok("redundant", m.redundant = NUses(m) - Cardinality(u), <<m.redundant, NUses(m), Cardinality(u)>>)
       /\ Ok("valid", m.valid = (m.missing = 0 /\ m.redundant = 0), m.valid)
       /\ Ok("connected faces", \A i \in DOMAIN m.E : \A f \in Faces(m) : (m.E[i].conn[f + 1] = 1) = (<<i - 1, f>> \in u),
             {q \in AllFaces(m) : (El(m, q[1]).conn[q[2] + 1] = 1) # (q \in u)})
  /\ Ok("hanging-node connections", m.nref = Len(m.H) /\ m.nfine = Cardinality(HF(m)) /\ m.nmatch <= Len(m.H), <<m.nref, m.nfine, m.nmatch>>)
  /\ Ok("sides of connections", \A i \in DOMAIN m.C : El(m, m.C[i].a).rl = El(m, m.C[i].b).rl, "rl")
  /\ Ok("deformed connections are between deformed elements", \A i \in DOMAIN m.C : m.C[i].k = 1 <=> (El(m, m.C[i].a).def /\ El(m, m.C[i].b).def), "def")
  /\ Ok("hanging sides", \A i \in DOMAIN m.H : \A k \in DOMAIN m.H[i].fine : LET d == El(m, m.H[i].fine[k]).rl - El(m, m.H[i].co).rl IN
        \* in 1D a fine face covers the coarse one, and it does not matter which of the two counts as coarse
        d = 1 \/ (m.nd = 1 /\ d = -1), "rl")
\* every face attached exactly once
Complete(m) ==
  /\ Ok("every face is attached", m.missing = 0, AllFaces(m) \ Used(m))
  /\ Ok("no face is attached twice", m.redundant = 0, m.redundant)
  /\ m.valid

\* ---- the leaves of the tree and what is next to them. Leaves as <<level, coordinates>>
LeafSet(m) == {<<m.T[i].l, m.T[i].c>> : i \in DOMAIN m.T}
\* cell -> element of the leaf (-1: none)
LeafEl(m) == LET s == TLCEval({<<<<m.T[i].l, m.T[i].c>>, m.T[i].e>> : i \in DOMAIN m.T}) IN
  TLCEval([x \in {p[1] : p \in s} |-> (CHOOSE p \in s : p[1] = x)[2]])
LeafIdx(m) == [x \in LeafSet(m) |-> CHOOSE i \in DOMAIN m.T : m.T[i].l = x[1] /\ m.T[i].c = x[2]]
OffsetsT == [n \in 1..3 |-> [1..n -> {0, 1}]]
DirsT == [n \in 1..3 |-> [1..n -> {-1, 0, 1}] \ {[i \in 1..n |-> 0]}]
NonZero(n, d) == Cardinality({i \in 1..n : d[i] # 0})
FaceDir(n, f) == [i \in 1..n |-> IF i = Dim(f) + 1 THEN Sgn(f) ELSE 0]
TouchT == [n \in 1..3 |-> [d \in [1..n -> {-1, 0, 1}] |->
             {o \in OffsetsT[n] : \A i \in 1..n : (d[i] = 1 => o[i] = 0) /\ (d[i] = -1 => o[i] = 1)}]]
Shift(n, x, d) == <<x[1], [i \in 1..n |-> x[2][i] + d[i]]>>
Up(n, x) == <<x[1] - 1, [i \in 1..n |-> x[2][i] \div 2]>>
Inside(n, x) == \A i \in 1..n : x[2][i] >= 0 /\ x[2][i] < Pow2[x[1]]
\* leaves among L that meet cell x (a leaf, or not) across direction d, in a tree; L a set or a function over leaves
RECURSIVE Below(_, _, _, _), Above(_, _, _)
Below(n, x, d, L) == IF x \in L THEN {x} ELSE IF x[1] > 12 THEN {} ELSE
  UNION {Below(n, <<x[1] + 1, [i \in 1..n |-> 2*x[2][i] + o[i]]>>, d, L) : o \in TouchT[n][d]}
Above(n, x, L) == IF x \in L THEN {x} ELSE IF x[1] = 0 THEN {} ELSE Above(n, Up(n, x), L)
Adj(n, x, d, L) == LET y == Shift(n, x, d) IN
  IF ~Inside(n, y) THEN {} ELSE LET a == Above(n, y, L) IN IF a # {} THEN a ELSE Below(n, y, d, L)

\* the tree is linked to the elements
TreeLinks(m) ==
  /\ Ok("no subdivided cell has an element", \A i \in DOMAIN m.T : m.T[i].e # -2, {m.T[i] : i \in {j \in DOMAIN m.T : m.T[j].e = -2}})
  /\ Ok("elements of the leaves are the tree elements",
        {m.T[i].e : i \in DOMAIN m.T} \ {-1} = TreeEls(m) /\ Cardinality({i \in DOMAIN m.T : m.T[i].e >= 0}) = Cardinality(TreeEls(m)), "tree")
  /\ Ok("links", \A i \in DOMAIN m.E : m.E[i].link, {m.E[i] : i \in {j \in DOMAIN m.E : ~m.E[j].link}})
  /\ Ok("cells", \A i \in DOMAIN m.T : m.T[i].e >= 0 => CellOf(El(m, m.T[i].e)) = <<m.T[i].l, m.T[i].c>>, "cell")

\* ---- connections between tree elements are those of the geometry
TreeConnections(m) ==
  \A le \in {LeafEl(m)} :
  \A L \in {TLCEval(DOMAIN le)} :
  \A cc \in {TLCEval(TLCEval({<<m.C[i].a, m.C[i].af, m.C[i].b, m.C[i].bf>> : i \in DOMAIN m.C}) \cup {<<m.C[i].b, m.C[i].bf, m.C[i].a, m.C[i].af>> : i \in DOMAIN m.C})} :
  \A hh \in {TLCEval({<<m.H[i].co, m.H[i].cf, {m.H[i].fine[k] : k \in DOMAIN m.H[i].fine}, m.H[i].ff>> : i \in DOMAIN m.H}
             \cup (IF m.nd > 1 THEN {} ELSE {<<m.H[i].fine[1], m.H[i].ff, {m.H[i].co}, m.H[i].cf>> : i \in DOMAIN m.H}))} :
  \A bb \in {TLCEval({<<m.B[i].e, m.B[i].f, m.B[i].bc>> : i \in DOMAIN m.B})} :
  LET n == m.nd
      OkFace(x, f) ==
        LET e == le[x]
            y == Shift(n, x, FaceDir(n, f))
            s == Adj(n, x, FaceDir(n, f), L)
            es == {le[z] : z \in s} \ {-1}
        IN IF ~Inside(n, y) THEN Ok("boundary of the domain", <<e, f, f>> \in bb, <<e, f>>)
           ELSE IF es = {} THEN TRUE
           ELSE IF \E z \in s : z[1] > x[1] THEN
             Ok("finer neighbors", Cardinality(es) = Pow2[n - 1] /\ \A z \in s : z[1] = x[1] + 1, <<x, f, s>>)
             /\ Ok("hanging-node connection", <<e, f, es, Opp(f)>> \in hh, <<e, f, es>>)
           ELSE IF \E z \in s : z[1] = x[1] THEN Ok("conformal connection", \E o \in es : <<e, f, o, Opp(f)>> \in cc, <<e, f, es>>)
           ELSE Ok("coarser neighbor", \A z \in s : z[1] = x[1] - 1, <<x, f, s>>)
                /\ Ok("fine side", \E q \in hh : q[1] \in es /\ q[2] = Opp(f) /\ e \in q[3] /\ q[4] = f, <<e, f, es>>)
  IN \A x \in L : le[x] >= 0 => \A f \in Faces(m) : OkFace(x, f)

\* ---- geometry
FaceVerts(m, i, f) == {El(m, i).v[k] : k \in {j \in 1..Pow2[m.nd] : ((j - 1) \div Pow2[m.nd - 1 - Dim(f)]) % 2 = f % 2}}
Vertices(m) ==
  /\ Ok("vertex views", m.dupv = 0 /\ m.nv = Len(m.P), m.dupv)
  /\ Ok("vertices are those of the elements", {m.E[q[1]].v[q[2]] : q \in (DOMAIN m.E) \X (1..Pow2[m.nd])} = 0..(m.nv - 1), "v")
Shared(m) ==
  Ok("conformally connected faces share their vertices", \A i \in DOMAIN m.C :
        FaceVerts(m, m.C[i].a, m.C[i].af) = FaceVerts(m, m.C[i].b, m.C[i].bf), {i \in DOMAIN m.C :
        FaceVerts(m, m.C[i].a, m.C[i].af) # FaceVerts(m, m.C[i].b, m.C[i].bf)})
Tiled(m, tol) ==
  Ok("fine faces tile the coarse face", \A i \in DOMAIN m.H : m.H[i].gap <= tol, {m.H[i] : i \in {j \in DOMAIN m.H : m.H[j].gap > tol}})
\* in a 1D or 2D mesh without a surface distinct vertices are at distinct places (in 3D elements that only share part of an edge
\* of a coarser element are not told that they share its midpoint)
NoDuplicates(m) == Ok("one vertex at each place", Cardinality({m.P[i] : i \in DOMAIN m.P}) = Len(m.P), "P")

\* ---- balance, between elements
TooFine(m) ==
  LET n == m.nd IN UNION {{x \in DOMAIN le : le[x] >= 0 /\ \E d \in DirsT[n] : NonZero(n, d) <= 2 /\ \E z \in Adj(n, x, d, DOMAIN le) : le[z] >= 0 /\ z[1] > x[1] + 1}
    : le \in {LeafEl(m)}}
BalancedMesh(m) == LET t == TooFine(m) IN Ok("balanced", t = {}, t)
=============================================================================
