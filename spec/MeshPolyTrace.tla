---------------------------- MODULE MeshPolyTrace ----------------------------
(* P10: exporting. At a "poly" event the mesh m is exported; f is what is in the files. It has to describe m: the cells are the
   elements (f.ce: candidate for the correspondence), the points the vertices (vertices at the same position have the same key, f.vk
   for those of m, f.pk for those of the files), the internal faces the connections, with each face of a finer element on its own,
   the boundary patches the boundary conditions. Everything but the exports is done to a second mesh tw.m as well, which has to
   stay the same. *)
EXTENDS MeshFileTrace
Str(n) == ToString(n)
Rng(s) == {s[i] : i \in DOMAIN s}
\* corners of an element are numbers from 1
Bit(c, d) == ((c - 1) \div Pow2[2 - d]) % 2
FaceCornerNos(f) == {c \in 1..8 : Bit(c, Dim(f)) = f % 2}
\* next corner of a right-handed loop around the outward normal of face f. The tangential axes a, b are such that
\* (normal, a, b) is right-handed, so that a -> b is counterclockwise seen from the positive side
NextCorner(c, f) ==
  LET d == Dim(f) a == (d + 1) % 3 b == (d + 2) % 3
      wa == Pow2[2 - a] wb == Pow2[2 - b]
      x == Bit(c, a) y == Bit(c, b)
      pos == IF y = 0 THEN (IF x = 0 THEN c + wa ELSE c + wb) ELSE (IF x = 1 THEN c - wa ELSE c - wb)
      neg == IF x = 0 THEN (IF y = 0 THEN c + wb ELSE c + wa) ELSE (IF y = 1 THEN c - wb ELSE c - wa)
  IN IF f % 2 = 1 THEN pos ELSE neg
\* the keys of the loop around a face of element e, starting from a corner, seen from outside (dir = 1) or inside
RECURSIVE LoopFrom(_, _, _)
LoopFrom(c, f, n) == IF n = 0 THEN <<>> ELSE <<c>> \o LoopFrom(NextCorner(c, f), f, n - 1)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Corner0(f) == CHOOSE c \in FaceCornerNos(f) : TRUE
Loops(m, vk, e, f) ==
  {LET cs == LoopFrom(c, f, 4) IN [i \in 1..4 |-> vk[El(m, e).v[cs[i]] + 1]] : c \in FaceCornerNos(f)}
RevLoops(m, vk, e, f) == {Rev(s) : s \in Loops(m, vk, e, f)}

\* what the faces have to be: <<element on whose side the loop is, its face, other element, its face>>
Conns(m) == {<<m.C[i].a, m.C[i].af, m.C[i].b, m.C[i].bf>> : i \in DOMAIN m.C}
FineConns(m) == {<<m.H[q[1]].fine[q[2]], m.H[q[1]].ff, m.H[q[1]].co, m.H[q[1]].cf>> : q \in HF(m)}
Bnds(m) == {<<m.B[i].e, m.B[i].f, m.B[i].bc>> : i \in DOMAIN m.B}

HeadOk(h, cls, obj) == h.cls = cls /\ h.object = obj /\ h.version = "2.0" /\ h.format = "ascii"
CountNote(m, f) == "\"nPoints:" \o Str(Len(f.vk)) \o " nCells:" \o Str(N(m)) \o " nFaces:" \o Str(Len(f.F)) \o " nInternalFaces:" \o Str(Len(f.N)) \o "\""
Export(m, f) ==
  LET vk == f.vk pk == f.pk nf == Len(f.F) ni == Len(f.N)
      K(i) == [j \in DOMAIN f.F[i] |-> pk[f.F[i][j] + 1]]
      Own(i) == f.ce[f.O[i] + 1]
      Nei(i) == f.ce[f.N[i] + 1]
  IN
  /\ Ok("headers", Len(f.heads) = 5 /\ HeadOk(f.heads[1], "vectorField", "points") /\ HeadOk(f.heads[2], "faceList", "faces")
          /\ HeadOk(f.heads[3], "labelList", "owner") /\ HeadOk(f.heads[4], "labelList", "neighbour") /\ HeadOk(f.heads[5], "polyBoundaryMesh", "boundary"), f.heads)
  /\ Ok("numbers of entries", f.counts = <<Len(pk), nf, Len(f.O), ni, Len(f.B)>>, f.counts)
  /\ Ok("nothing is left of previous exports", f.other = 0, f.other)
  /\ Ok("notes", f.heads[3].note = CountNote(m, f) /\ f.heads[4].note = CountNote(m, f), f.heads)
  \* points
  /\ Ok("points", Len(pk) = Len(vk) /\ Rng(pk) = Rng(vk)
          /\ (Cardinality(Rng(vk)) = Len(vk) \/ \A k \in Rng(vk) : Cardinality({i \in DOMAIN vk : vk[i] = k}) = Cardinality({i \in DOMAIN pk : pk[i] = k})),
        <<Len(pk), Len(vk), Rng(pk) \ Rng(vk)>>)
  \* cells
  /\ Ok("cells", Bij(f.ce, N(m)), f.ce)
  \* faces
  /\ Ok("number of faces", nf = Len(f.O) /\ ni = Len(m.C) + Cardinality(HF(m)) /\ nf = ni + Len(m.B), <<nf, ni, Len(m.B)>>)
  /\ Ok("faces have four points", \A i \in 1..nf : Len(f.F[i]) = 4 /\ \A j \in 1..4 : f.F[i][j] \in Nat0(Len(pk)), "F")
  /\ Ok("owners come before neighbors", \A i \in 1..ni : f.O[i] < f.N[i], {i \in 1..ni : f.O[i] >= f.N[i]})
  /\ \A cons \in {TLCEval(Conns(m))} : \A fines \in {TLCEval(FineConns(m))} :
     LET \* connections that match internal face i
         Match(i) == {c \in cons : {c[1], c[3]} = {Own(i), Nei(i)} /\ Rng(K(i)) = Rng(CHOOSE s \in Loops(m, vk, c[1], c[2]) : TRUE)}
           \cup {c \in fines : {c[1], c[3]} = {Own(i), Nei(i)} /\ Rng(K(i)) = Rng(CHOOSE s \in Loops(m, vk, c[1], c[2]) : TRUE)}
     IN \A match \in {TLCEval([i \in 1..ni |-> Match(i)])} :
        /\ Ok("internal faces are connections", \A i \in 1..ni : match[i] # {}, {<<i, Own(i), Nei(i), K(i)>> : i \in {j \in 1..ni : match[j] = {}}})
        /\ Ok("every connection is a face", UNION Rng(match) = cons \cup fines, (cons \cup fines) \ UNION Rng(match))
        /\ Ok("loops point from the owner to the neighbor", \A i \in 1..ni : \E c \in match[i] :
              IF c[1] = Own(i) THEN K(i) \in Loops(m, vk, c[1], c[2]) ELSE K(i) \in RevLoops(m, vk, c[1], c[2]),
              {<<i, Own(i), Nei(i), K(i)>> : i \in {j \in 1..ni : ~\E c \in match[j] :
              IF c[1] = Own(j) THEN K(j) \in Loops(m, vk, c[1], c[2]) ELSE K(j) \in RevLoops(m, vk, c[1], c[2])}})
        \* elements share points exactly if they share vertices: each vertex of the listed faces is one point
        /\ \A pairs \in {TLCEval(UNION {{<<El(m, c[1]).v[q], f.F[i][CHOOSE j \in 1..4 : K(i)[j] = vk[El(m, c[1]).v[q] + 1]]>> :
                  q \in FaceCornerNos(c[2])} : <<i, c>> \in {x \in (1..ni) \X (cons \cup fines) : match[x[1]] = {x[2]}}})} :
           Cardinality(Rng(vk)) = Len(vk) => Ok("one point for each vertex", Cardinality(pairs) = Cardinality({x[1] : x \in pairs}) /\ Cardinality(pairs) = Cardinality({x[2] : x \in pairs}), "v")
  \* boundary patches
  /\ Ok("patches", Len(f.B) = m.nbc, f.B)
  /\ Ok("names of patches", Cardinality({f.B[i].name : i \in DOMAIN f.B}) = Len(f.B)
        /\ \A i \in DOMAIN f.B : LET b == f.B[i] IN
           IF m.T = <<>> THEN b.name = "bc" \o Str(i - 1) /\ b.type = "patch"
           ELSE IF i - 1 = m.sbc THEN b.name = "surface_bc" /\ b.type = "wall"
           ELSE b.name = "extremal_bc" \o Str((i - 1) \div 2) \o Str((i - 1) % 2) /\ b.type = "patch", f.B)
  /\ Ok("patches are one after another", \A i \in DOMAIN f.B : f.B[i].n >= 0 /\ f.B[i].start = (IF i = 1 THEN ni ELSE f.B[i - 1].start + f.B[i - 1].n)
        /\ (i = Len(f.B) => f.B[i].start + f.B[i].n = nf), f.B)
  /\ \A bb \in {TLCEval(Bnds(m))} :
     LET FacesOf(i) == {x \in bb : x[1] = Own(i) /\ K(i) \in Loops(m, vk, x[1], x[2])}
     IN \A match \in {TLCEval([i \in (ni + 1)..nf |-> FacesOf(i)])} :
        /\ Ok("boundary faces point out of their owners", \A i \in (ni + 1)..nf : match[i] # {}, {<<i, Own(i), K(i)>> : i \in {j \in (ni + 1)..nf : match[j] = {}}})
        /\ Ok("every boundary face is a face", UNION {match[i] : i \in (ni + 1)..nf} = bb, bb \ UNION {match[i] : i \in (ni + 1)..nf})
        /\ Ok("boundary faces are in their patches", \A p \in DOMAIN f.B : \A i \in (f.B[p].start + 1)..(f.B[p].start + f.B[p].n) : \E x \in match[i] : x[3] = p - 1, "B")

PStep(e) == \/ e.ev = "reset"
            \/ e.ev = "poly" /\ Ok("only 3D is supported", (e.what = "") = (e.m.nd = 3), e.what)
               /\ (e.what = "" => Export(e.m, e.f)) /\ Same(e.m, e.tw.m, e.tw.perm, FALSE)
            \/ e.ev \notin {"reset", "poly", "failed"} /\ Same(e.m, e.tw.m, e.tw.perm, FALSE)
               /\ ("ret" \in DOMAIN e => Ok("return value", e.ret = e.tw.ret, e.ret))
PNext == l <= Len(Trace) /\ l' = l + 1 /\ PStep(Trace[l])
PSpec == TInit /\ [][PNext]_l
=============================================================================
