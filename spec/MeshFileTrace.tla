---------------------------- MODULE MeshFileTrace ----------------------------
(* P09: mesh files. At a "twin" event the mesh m is written to a file f, and a second mesh tw.m is read from it; from then on
   every operation is applied to both. f has to be what the documentation of the file format says about m, and the second mesh
   has to stay isomorphic to the first (tw.perm: a candidate for the isomorphism, from the second to the first). *)
EXTENDS Mesh, Orient
VARIABLE l
Nat0(n) == 0..(n - 1)
Bij(p, n) == Len(p) = n /\ Cardinality({p[i] : i \in DOMAIN p} \cap Nat0(n)) = n
P(p, i) == IF i < 0 THEN i ELSE p[i + 1]
\* vertices, given as lists by element, correspond one to one and are at the same places. vs: element -> vertices; ps: positions
SameVertices(n, p, vs, ps, ws, qs) ==
  \A pairs \in {TLCEval({<<vs[i][k], ws[p[i] + 1][k]>> : i \in DOMAIN vs, k \in 1..Pow2[n]})} :
    /\ Ok("vertices correspond one to one", Len(ps) = Len(qs) /\ Cardinality(pairs) = Len(ps)
          /\ {x[1] : x \in pairs} = Nat0(Len(ps)) /\ {x[2] : x \in pairs} = Nat0(Len(qs)), <<Len(ps), Len(qs), Cardinality(pairs)>>)
    /\ Ok("vertex positions", \A x \in pairs : \A j \in 1..3 : Abs(ps[x[1] + 1][j] - qs[x[2] + 1][j]) <= 2, "P")

Con(c, p) == <<P(p, c.a), c.af, P(p, c.b), c.bf, c.k>>
Sides(c, p) == <<{<<P(p, c.a), c.af>>, <<P(p, c.b), c.bf>>}, c.k>>
Han(n, h, p) == LET f == {P(p, h.fine[k]) : k \in DOMAIN h.fine} IN
  IF n = 1 THEN <<{<<P(p, h.co), h.cf>>, <<CHOOSE x \in f : TRUE, h.ff>>}, h.k>>
  ELSE <<P(p, h.co), h.cf, f, h.ff, h.st, h.k>>
\* strict: connections also have the same first sides
Same(m, w, p, strict) ==
  /\ Ok("element numbers", N(m) = N(w) /\ Bij(p, N(m)), p)
  /\ \A i \in DOMAIN w.E : LET a == w.E[i] b == m.E[p[i] + 1] IN
       Ok("elements", <<a.h[1], a.h[2], a.rl, a.def, a.tree, a.link, a.c, a.conn, a.sz, a.na>> = <<b.h[1], b.h[2], b.rl, b.def, b.tree, b.link, b.c, b.conn, b.sz, b.na>>, <<a, b>>)
  /\ SameVertices(m.nd, p, [i \in DOMAIN w.E |-> w.E[i].v], w.P, [i \in DOMAIN m.E |-> m.E[i].v], m.P)
  /\ \A i0 \in {[i \in 1..N(m) |-> i - 1]} :
     /\ Ok("conformal connections", Len(m.C) = Len(w.C) /\ (IF strict THEN {Con(m.C[i], i0) : i \in DOMAIN m.C} = {Con(w.C[i], p) : i \in DOMAIN w.C}
           ELSE {Sides(m.C[i], i0) : i \in DOMAIN m.C} = {Sides(w.C[i], p) : i \in DOMAIN w.C}),
           {Con(m.C[i], i0) : i \in DOMAIN m.C} \ {Con(w.C[i], p) : i \in DOMAIN w.C})
     /\ \A a \in {TLCEval({<<Han(m.nd, m.H[i], i0), m.H[i].gap \div 50>> : i \in DOMAIN m.H})} :
        \A b \in {TLCEval({<<Han(m.nd, w.H[i], p), w.H[i].gap \div 50>> : i \in DOMAIN w.H})} :
        /\ Ok("hanging-node connections", Len(m.H) = Len(w.H) /\ {x[1] : x \in a} = {x[1] : x \in b}, <<a \ b, b \ a>>)
        /\ Ok("fine elements are at their places", a = b \/ \A x \in b \ a : \E y \in a : y[1] = x[1] /\ Abs(y[2] - x[2]) <= 1, <<a \ b, b \ a>>)
     /\ Ok("boundary connections", Len(m.B) = Len(w.B) /\ {<<m.B[i].e, m.B[i].f, m.B[i].bc>> : i \in DOMAIN m.B} = {<<P(p, w.B[i].e), w.B[i].f, w.B[i].bc>> : i \in DOMAIN w.B}, "B")
     /\ Ok("extrusions", Len(m.X) = Len(w.X) /\ {<<m.X[i].x, m.X[i].xf, m.X[i].p, m.X[i].pf>> : i \in DOMAIN m.X}
             = {<<P(p, w.X[i].x), w.X[i].xf, P(p, w.X[i].p), w.X[i].pf>> : i \in DOMAIN w.X}, <<m.X, w.X>>)
  \* (the harness gets at the tree through the elements, so it sees none if there are no elements)
  /\ Ok("tree", ((N(w) = 0 /\ N(m) = 0) \/ (Len(m.T) = Len(w.T) /\ {<<m.T[i].l, m.T[i].c, m.T[i].e, m.T[i].s>> : i \in DOMAIN m.T} = {<<w.T[i].l, w.T[i].c, P(p, w.T[i].e), w.T[i].s>> : i \in DOMAIN w.T})), "T")
  /\ Ok("reports", <<m.n, m.nh, m.ncar, m.dupv, m.nfine, m.nref, m.nmatch, m.nbc, m.sbc, m.missing, m.redundant, m.valid>>
                 = <<w.n, w.nh, w.ncar, w.dupv, w.nfine, w.nref, w.nmatch, w.nbc, w.sbc, w.missing, w.redundant, w.valid>>, "reports")

\* ---- the file. Row 1 of a table has index 0
TT(x) == x = 1
RECURSIVE Walk(_, _, _, _, _), WalkAll(_, _, _, _, _, _)
\* all nodes below a row of the tree table: <<row, level, coordinates, element, status, leaf?>>
Walk(n, T, row, lev, c) ==
  LET r == T[row + 1] IN
  IF r[3] < 0 THEN {<<row, lev, c, r[1], r[2], TRUE>>}
  ELSE {<<row, lev, c, r[1], r[2], FALSE>>} \cup WalkAll(n, T, r, lev + 1, c, Pow2[n])
WalkAll(n, T, r, lev, c, k) == IF k = 0 THEN {} ELSE
  Walk(n, T, r[2 + k], lev, [i \in 1..n |-> 2*c[i] + (((k - 1) \div Pow2[n - i]) % 2)]) \cup WalkAll(n, T, r, lev, c, k - 1)
FileH(m, f, r, q) ==
  LET fine == [k \in 1..Cardinality({j \in 2..5 : r[j] >= 0}) |-> r[k + 1]]
      d == [i0 |-> r[8] + 1, s0 |-> r[10], i1 |-> r[9] + 1, s1 |-> r[11]]
      str == <<r[6] = 1, r[7] = 1>>
  IN /\ Ok("unused entries", \A j \in 2..5 : (j > Len(fine) + 1) = (r[j] = -1), r)
     \* (in 1D a connection can count the finer element as the coarse one)
     /\ Ok("refinement levels", \A k \in DOMAIN fine : f.rl[fine[k] + 1] = f.rl[r[1] + 1] + 1 \/ m.nd = 1, r)
     /\ Ok("faces of Cartesian elements", (\E j \in {r[1]} \cup {fine[k] : k \in DOMAIN fine} : f.def[j + 1] = 0) => r[8] = r[9], r)
     /\ Ok("fine elements are in row-major order", \A A \in {Rot(m.nd, d)} : \A x \in FaceCorners(m.nd, d.i0, d.s0) : \A y \in {Image(m.nd, d, A, x)} :
          f.v[r[1] + 1][CornerIdx(m.nd, x) + 1] = f.v[fine[FineIdx(m.nd, d, y, str) + 1] + 1][CornerIdx(m.nd, y) + 1], r)
FileHRec(n, f, r, p) ==
  LET fs == {P(p, r[j]) : j \in {i \in 2..5 : r[i] >= 0}}
      k == IF \E j \in 1..5 : r[j] >= 0 /\ f.def[r[j] + 1] = 0 THEN 0 ELSE 1
  IN IF n = 1 THEN <<{<<P(p, r[1]), 2*r[8] + r[10]>>, <<CHOOSE x \in fs : TRUE, 2*r[9] + r[11]>>}, k>>
     ELSE <<P(p, r[1]), 2*r[8] + r[10], fs, 2*r[9] + r[11], <<r[6], r[7]>>, k>>
File(e, m, f) ==
  LET p == f.perm n == m.nd IN
  /\ Ok("attributes", f.attr = e.want /\ f.root /\ f.cp = 3, f.attr)
  /\ Ok("element numbers", Len(f.rl) = N(m) /\ Len(f.def) = N(m) /\ Len(f.c) = N(m) /\ Len(f.v) = N(m) /\ Bij(p, N(m)), p)
  /\ Ok("elements", \A i \in DOMAIN f.rl : LET b == m.E[p[i] + 1] IN f.rl[i] = b.rl /\ (f.def[i] = 1) = b.def /\ f.c[i] = b.c, "E")
  /\ SameVertices(n, p, f.v, f.P, [i \in DOMAIN m.E |-> m.E[i].v], m.P)
  /\ Ok("trailing coordinates", \A i \in DOMAIN f.P : \A j \in 1..3 : j > n => f.P[i][j] = 0, "P")
  /\ \A i0 \in {[i \in 1..N(m) |-> i - 1]} :
     /\ Ok("conformal connections", Len(f.C) = Len(m.C) /\
           {Sides(m.C[i], i0) : i \in DOMAIN m.C} = {<<{<<P(p, f.C[i][1]), 2*f.C[i][3] + f.C[i][5]>>, <<P(p, f.C[i][2]), 2*f.C[i][4] + f.C[i][6]>>},
                                                       IF f.def[f.C[i][1] + 1] = 1 /\ f.def[f.C[i][2] + 1] = 1 THEN 1 ELSE 0>> : i \in DOMAIN f.C}, "C")
     /\ Ok("directions", \A i \in DOMAIN f.C : LET r == f.C[i] IN ~(r[3] = r[4] /\ r[5] = r[6])
           /\ ((f.def[r[1] + 1] = 0 \/ f.def[r[2] + 1] = 0) => r[3] = r[4] /\ r[5] = 1 /\ r[6] = 0), "C")
     /\ Ok("refined connections", Len(f.H) = Len(m.H) /\ {Han(n, m.H[i], i0) : i \in DOMAIN m.H} = {FileHRec(n, f, f.H[i], p) : i \in DOMAIN f.H},
           {Han(n, m.H[i], i0) : i \in DOMAIN m.H} \ {FileHRec(n, f, f.H[i], p) : i \in DOMAIN f.H})
     /\ \A i \in DOMAIN f.H : FileH(m, f, f.H[i], p)
     /\ Ok("boundary connections", Len(f.B) = Len(m.B) /\ {<<m.B[i].e, m.B[i].f, m.B[i].bc>> : i \in DOMAIN m.B}
            = {<<P(p, f.B[i][1]), 2*f.B[i][3] + f.B[i][4], f.B[i][2]>> : i \in DOMAIN f.B}, "B")
     /\ Ok("face warping", Len(f.wi) = Cardinality({f.wi[i] : i \in DOMAIN f.wi}) /\ {f.wi[i] : i \in DOMAIN f.wi} = {i - 1 : i \in {j \in DOMAIN f.def : f.def[j] = 1}}, f.wi)
  /\ f.tree => \A t \in {TLCEval(Walk(n, f.T, 0, 0, [i \in 1..n |-> 0]))} :
       /\ Ok("origin", \A i \in DOMAIN f.orig : Abs(f.orig[i]) <= 1, f.orig)
       /\ Ok("every row is a node", Cardinality(t) = Len(f.T) /\ {x[1] : x \in t} = Nat0(Len(f.T)), Len(f.T))
       /\ Ok("leaves", {<<x[2], x[3], P(p, x[4]), x[5]>> : x \in {y \in t : y[6]}} = {<<m.T[i].l, m.T[i].c, m.T[i].e, m.T[i].s>> : i \in DOMAIN m.T}, "T")
       /\ Ok("other nodes have no elements", \A x \in t : x[6] \/ x[4] = -1, "T")

Step(e) == \/ e.ev = "reset"
           \/ e.ev = "twin" /\ Ok("parameters", e.params = e.want /\ e.root, e.params) /\ File(e, e.m, e.f) /\ Same(e.m, e.tw.m, e.tw.perm, TRUE)
           \/ e.ev \notin {"reset", "twin", "failed"} /\ ("tw" \in DOMAIN e => Same(e.m, e.tw.m, e.tw.perm, FALSE)
                /\ ("ret" \in DOMAIN e => Ok("return value", e.ret = e.tw.ret, e.ret)))
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_l
=============================================================================
