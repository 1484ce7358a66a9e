------------------------------ MODULE TreeModel ------------------------------
(* Bin/quad/octree of nominal cells. A node is <<level, coordinates>>; node <<l, c>> covers, in direction i, the interval
   [c[i], c[i]+1] in units of 2^-l of the root. Queries are stated on the covered regions, independent of any search. *)
EXTENDS Integers, FiniteSets, Sequences

Unproc == -1
VARIABLES nd,      \* number of dimensions
          refined, \* nodes with children
          st       \* [existing node -> flood fill status]
tvars == <<nd, refined, st>>

RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2*Pow(n - 1)
Dims == 1..nd
Root == <<0, [i \in Dims |-> 0]>>
Bit(k, i) == (k \div Pow(nd - i)) % 2          \* bit of dimension i in the row-major child number k
Child(n, k) == <<n[1] + 1, [i \in Dims |-> 2*n[2][i] + Bit(k, i)]>>
Children(n) == {Child(n, k) : k \in 0..(Pow(nd) - 1)}
Parent(n) == <<n[1] - 1, [i \in Dims |-> n[2][i] \div 2]>>
Ancestor(n, l) == <<l, [i \in Dims |-> n[2][i] \div Pow(n[1] - l)]>>
Nodes == DOMAIN st
Leaves == Nodes \ refined
Desc(n) == {m \in Nodes : m[1] >= n[1] /\ Ancestor(m, n[1]) = n}   \* including n
LeafDesc(n) == {m \in Desc(n) : m \notin refined}

\* covered interval at level L (L at least the level of the node)
Lo(n, i, L) == n[2][i]*Pow(L - n[1])
Hi(n, i, L) == (n[2][i] + 1)*Pow(L - n[1])
Max(a, b) == IF a > b THEN a ELSE b

\* depth-first, row-major order
RECURSIVE DFS(_)
RECURSIVE DFSFrom(_, _)
DFSFrom(n, k) == IF k = Pow(nd) THEN <<>> ELSE DFS(Child(n, k)) \o DFSFrom(n, k + 1)
DFS(n) == IF n \in refined THEN DFSFrom(n, 0) ELSE <<n>>

\* m borders n in direction d (one of -1, 0, 1 for each dimension): it covers the cell of the same size as n that lies in
\* direction d, or it lies in that cell and touches n
Shift(n, d) == <<n[1], [i \in Dims |-> n[2][i] + d[i]]>>
Borders(n, d, m) ==
  IF m[1] <= n[1] THEN \A i \in Dims : (n[2][i] + d[i]) \div Pow(n[1] - m[1]) = m[2][i]
  ELSE LET L == m[1]  s == Shift(n, d) IN
       \A i \in Dims : CASE d[i] = 1  -> Lo(m, i, L) = Hi(n, i, L)
                         [] d[i] = -1 -> Hi(m, i, L) = Lo(n, i, L)
                         [] OTHER     -> Lo(n, i, L) <= Lo(m, i, L) /\ Hi(m, i, L) <= Hi(n, i, L)
Neighbors(n, d) == {m \in Leaves : Borders(n, d, m)}

\* point p (in units of level rl) is in node m, a half-open box closed on the side opposite to b
Contains(m, rl, p, b) ==
  LET L == Max(rl, m[1]) IN
  \A i \in Dims : LET x == p[i]*Pow(L - rl) IN
    IF b[i] = 0 THEN Lo(m, i, L) <= x /\ x < Hi(m, i, L) ELSE Lo(m, i, L) < x /\ x <= Hi(m, i, L)
LeafAt(n, rl, p, b) == {m \in LeafDesc(n) : Contains(m, rl, p, b)}

FaceDirs == {[i \in Dims |-> IF i = j THEN s ELSE 0] : j \in Dims, s \in {-1, 1}}
\* leaves that share a face (of positive area) with n
Touch(n, m) ==
  LET L == Max(n[1], m[1]) IN
  \E j \in Dims : /\ Lo(m, j, L) = Hi(n, j, L) \/ Hi(m, j, L) = Lo(n, j, L)
                  /\ \A i \in Dims \ {j} : Lo(m, i, L) < Hi(n, i, L) /\ Lo(n, i, L) < Hi(m, i, L)
FaceNeighbors(n) == {m \in Leaves : Touch(n, m)}

RECURSIVE FirstLeaf(_)
FirstLeaf(n) == IF n \in refined THEN FirstLeaf(Child(n, 0)) ELSE n
RECURSIVE Fill(_, _)   \* unprocessed leaves connected to the frontier through unprocessed leaves
Fill(done, frontier) ==
  LET new == {m \in UNION {FaceNeighbors(n) : n \in frontier} : st[m] = Unproc} \ done IN
  IF new = {} THEN done ELSE Fill(done \cup new, new)
FillSet(n) == LET s == FirstLeaf(n) IN IF st[s] = Unproc THEN Fill({s}, {s}) ELSE {}

Init(d) == nd = d /\ refined = {} /\ st = [n \in {<<0, [i \in 1..d |-> 0]>>} |-> Unproc]

Refine(n) ==
  /\ n \in Leaves
  /\ refined' = refined \cup {n}
  /\ st' = [m \in Nodes \cup Children(n) |-> IF m \in Nodes THEN st[m] ELSE Unproc]
  /\ UNCHANGED nd
Unrefine(n) ==
  /\ n \in Nodes
  /\ refined' = refined \ Desc(n)
  /\ st' = [m \in (Nodes \ Desc(n)) \cup {n} |-> st[m]]
  /\ UNCHANGED nd
SetStatus(n, s) == n \in Nodes /\ st' = [st EXCEPT ![n] = s] /\ UNCHANGED <<nd, refined>>
Clear(n) == n \in Nodes /\ st' = [m \in Nodes |-> IF m \in Desc(n) THEN Unproc ELSE st[m]] /\ UNCHANGED <<nd, refined>>
FloodFill(n, s) ==
  /\ n \in Nodes /\ s # Unproc
  /\ LET f == FillSet(n) IN st' = [m \in Nodes |-> IF m \in f THEN s ELSE st[m]]
  /\ UNCHANGED <<nd, refined>>

\* ---- properties of the design
Volume(n, L) == Pow(nd*(L - n[1]))
RECURSIVE SumVol(_, _)
SumVol(S, L) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Volume(x, L) + SumVol(S \ {x}, L)
MaxLevel == CHOOSE l \in {n[1] : n \in Nodes} : \A n \in Nodes : n[1] <= l
\* the leaves tile the root
Tiling == SumVol(Leaves, MaxLevel) = Volume(Root, MaxLevel)
         /\ \A m, n \in Leaves : m # n => \E i \in Dims : LET L == MaxLevel IN
              Hi(m, i, L) <= Lo(n, i, L) \/ Hi(n, i, L) <= Lo(m, i, L)
NodesOK == Nodes = {Root} \cup UNION {Children(n) : n \in refined}
Closed == \A n \in refined : n = Root \/ Parent(n) \in refined
\* adjacency is mutual
Mutual == \A n \in Leaves : \A d \in FaceDirs : \A m \in Neighbors(n, d) : n \in Neighbors(m, [i \in Dims |-> -d[i]])
\* a face has no neighbor exactly when it is on the boundary of the root
BoundaryIff == \A n \in Leaves : \A i \in Dims, s \in {-1, 1} :
   (Neighbors(n, [j \in Dims |-> IF j = i THEN s ELSE 0]) = {}) <=>
   (IF s = -1 THEN n[2][i] = 0 ELSE n[2][i] = Pow(n[1]) - 1)
\* every point has exactly one leaf for each bias, unless it is on the side of the root which the bias excludes
PointLocation == LET L == MaxLevel IN
  \A p \in [Dims -> 0..Pow(L)], b \in [Dims -> {0, 1}] :
    Cardinality(LeafAt(Root, L, p, b)) =
      IF \E i \in Dims : (b[i] = 0 /\ p[i] = Pow(L)) \/ (b[i] = 1 /\ p[i] = 0) THEN 0 ELSE 1
=============================================================================
