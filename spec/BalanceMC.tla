----------------------------- MODULE BalanceMC -----------------------------
(* Why the balance of P20 holds (model): cells of different sizes exchange fluxes through the segments of their faces. Each segment is
   used once by either side with opposite signs, the face of a coarse cell receives the sum of the segments of the fine faces.
   Whatever the fluxes are, what is in the cells of a closed domain stays the same, and if the flux is a function of the
   states on both sides and of the direction, then a uniform flow stays uniform because the faces of each cell close. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Meshes, MaxStep, Q
\* a cell is <<x, y, size>>; a mesh is a set of cells which fill a rectangle
Unit(c) == {<<x, y>> : x \in c[1]..c[1] + c[3] - 1, y \in c[2]..c[2] + c[3] - 1}
Owner(m, u) == {c \in m : u \in Unit(c)}
\* unit segments: <<u, d>> is between u and its neighbor in direction d (1: x, 2: y)
Next1(u, d) == IF d = 1 THEN <<u[1] + 1, u[2]>> ELSE <<u[1], u[2] + 1>>
AllUnits(m) == UNION {Unit(c) : c \in m}
Segs(m) == {s \in AllUnits(m) \X {1, 2} : LET v == Next1(s[1], s[2]) IN v \in AllUnits(m) /\ Owner(m, v) # Owner(m, s[1])}
Left(m, s) == CHOOSE c \in m : s[1] \in Unit(c)
Right(m, s) == CHOOSE c \in m : Next1(s[1], s[2]) \in Unit(c)
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
VARIABLES mesh, amount, n, unif
vars == <<mesh, amount, n, unif>>
Tot0(m) == Sum([c \in m |-> c[3]*c[3]*5], m)
Init == mesh \in Meshes /\ amount = [c \in mesh |-> 5*c[3]*c[3]] /\ n = 0 /\ unif = TRUE
Change(q, c) == Sum(q, {s \in DOMAIN q : Right(mesh, s) = c}) - Sum(q, {s \in DOMAIN q : Left(mesh, s) = c})
Exchange == \E q \in [Segs(mesh) -> Q] :
  /\ amount' = [c \in mesh |-> amount[c] + Change(q, c)]
  /\ n < MaxStep /\ n' = n + 1 /\ unif' = FALSE /\ UNCHANGED mesh
\* in an open domain, a uniform flow also passes through the boundary
BSegs(m) == {s \in AllUnits(m) \X {1, 2, -1, -2} :
               LET u == s[1] v == IF s[2] > 0 THEN Next1(u, s[2]) ELSE IF s[2] = -1 THEN <<u[1] - 1, u[2]>> ELSE <<u[1], u[2] - 1>> IN v \notin AllUnits(m)}
Stream == \E fx \in Q, fy \in Q :
  /\ unif /\ n < MaxStep /\ n' = n + 1 /\ UNCHANGED <<mesh, unif>>
  /\ amount' = [c \in mesh |-> amount[c] + Change([s \in Segs(mesh) |-> IF s[2] = 1 THEN fx ELSE fy], c)
       - Sum([s \in BSegs(mesh) |-> (IF s[2] \in {1, -1} THEN fx ELSE fy)*(IF s[2] > 0 THEN 1 ELSE -1)], {s \in BSegs(mesh) : s[1] \in Unit(c)})]
Next == Exchange \/ Stream
Spec == Init /\ [][Next]_vars
Conserved == Sum(amount, mesh) = Tot0(mesh)
Uniform == unif => \A c \in mesh : amount[c] = 5*c[3]*c[3]
MeshA == {<<0, 0, 2>>, <<2, 0, 1>>, <<2, 1, 1>>}
MeshB == {<<0, 0, 1>>, <<1, 0, 1>>, <<0, 1, 1>>, <<1, 1, 1>>}
MeshC == {<<0, 0, 2>>, <<2, 0, 1>>, <<3, 0, 1>>, <<2, 1, 1>>, <<3, 1, 1>>}
Small == {MeshA, MeshB}
Large == {MeshA, MeshB, MeshC}
Flux == {-1, 0, 2}
=============================================================================
