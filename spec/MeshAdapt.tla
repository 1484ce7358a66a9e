------------------------------ MODULE MeshAdapt ------------------------------
(* Adaptation of a tree mesh without a surface geometry. The mesh is the set of refined cells R of a bin/quad/octree (its
   elements are the leaves) and the set lk of elements that are locked against unrefinement. *)
EXTENDS Integers, FiniteSets, Sequences, TLC
VARIABLES nd, R, lk
avars == <<nd, R, lk>>

\* tables for 1, 2 and 3 dimensions (constants, so that they are evaluated once)
Pow == [i \in 0..14 |-> 2^i]
Bit(k, i, n) == (k \div 2^(n - i)) % 2          \* bit of dimension i in the row-major child number k
OffsetsT == [n \in 1..3 |-> {[i \in 1..n |-> Bit(k, i, n)] : k \in 0..(2^n - 1)}]
RootT == [n \in 1..3 |-> <<0, [i \in 1..n |-> 0]>>]
DirsT == [n \in 1..3 |-> [j \in 1..3 |-> {d \in [1..n -> {-1, 0, 1}] : Cardinality({i \in 1..n : d[i] # 0}) = j}]]
\* offsets of the children of the cell in direction d that touch this cell
TouchT == [n \in 1..3 |-> [d \in [1..n -> {-1, 0, 1}] |->
             {o \in OffsetsT[n] : \A i \in 1..n : (d[i] = 1 => o[i] = 0) /\ (d[i] = -1 => o[i] = 1)}]]
Dims == 1..nd
Root == RootT[nd]
Children(n) == {<<n[1] + 1, [i \in Dims |-> 2*n[2][i] + o[i]]>> : o \in OffsetsT[nd]}
Parent(n) == <<n[1] - 1, [i \in Dims |-> n[2][i] \div 2]>>
LeavesOf(S) == (TLCEval(UNION {Children(n) : n \in S} \cup {Root})) \ S
Leaves == LeavesOf(R)

\* directions towards cells that share a face, or (in addition) an edge
FaceDirs == DirsT[nd][1]
EdgeDirs == IF nd = 1 THEN {} ELSE DirsT[nd][2]
Shift(n, d) == <<n[1], [i \in Dims |-> n[2][i] + d[i]]>>
\* some leaf that borders n in direction d is finer than n by more than one level: the cell of the size of n in direction d is
\* refined, and so is one of its children that touch n
TooFine(n, d, S) ==
  /\ Shift(n, d) \in S
  /\ \E o \in TouchT[nd][d] : <<n[1] + 1, [i \in Dims |-> 2*(n[2][i] + d[i]) + o[i]]>> \in S
NeedsFace(n, S) == \E d \in FaceDirs : TooFine(n, d, S)
Needs(n, S) == \E d \in FaceDirs \cup EdgeDirs : TooFine(n, d, S)

\* unrefine whole groups of siblings as long as that does not leave a cell with a face neighbor that is too fine
RECURSIVE UnrefineAll(_, _)
UnrefineAll(S, cand) ==
  LET go == {p \in cand : ~NeedsFace(p, S)} IN
  IF go = {} THEN S ELSE UnrefineAll(TLCEval(S \ go), TLCEval(cand \ go))
\* refine until no element has a neighbor that is too fine
RECURSIVE Smooth(_)
Smooth(S) == LET go == {n \in LeavesOf(S) : Needs(n, S)} IN
  IF go = {} THEN S ELSE Smooth(TLCEval(S \cup go))

\* sets of elements that are asked to be refined/unrefined -> the new tree; an element with both requests has none
AfterRefine(ref, unref) == R \cup (ref \ unref)
Groups(ref, unref) == {p \in R : \A c \in Children(p) : c \in Leaves /\ c \in (unref \ ref) /\ c \notin lk}
AfterUnrefine(ref, unref) == UnrefineAll(AfterRefine(ref, unref), Groups(ref, unref))
Result(ref, unref) == Smooth(AfterUnrefine(ref, unref))
Changed(ref, unref) == AfterUnrefine(ref, unref) # R
Update(ref, unref) ==
  \E S \in {Result(ref, unref)} :
  /\ ref \subseteq Leaves /\ unref \subseteq Leaves
  /\ R' = S
  /\ lk' = lk \cap LeavesOf(S)
  /\ UNCHANGED nd
Lock(s) == s \subseteq Leaves /\ lk' = s /\ UNCHANGED <<nd, R>>
AInit(d) == nd = d /\ R = {} /\ lk = {}

\* ---- properties of the design
Closed == \A n \in R : n = Root \/ Parent(n) \in R
\* neighbors over faces and edges differ by at most one level
Balanced == \A n \in Leaves : ~Needs(n, R)
\* the same, stated with the regions that the cells cover
TopL == LET ls == {n[1] : n \in Leaves} IN CHOOSE x \in ls : \A y \in ls : y <= x
Lo(n, i, L) == n[2][i]*Pow[L - n[1]]
Hi(n, i, L) == (n[2][i] + 1)*Pow[L - n[1]]
Contact(m, n) == LET L == TopL IN
  Cardinality({i \in Dims : Lo(m, i, L) = Hi(n, i, L) \/ Hi(m, i, L) = Lo(n, i, L)}) \in {1, 2}
  /\ \A i \in Dims : Lo(m, i, L) <= Hi(n, i, L) /\ Lo(n, i, L) <= Hi(m, i, L)
BalancedRegions == \A m, n \in Leaves : Contact(m, n) => m[1] - n[1] \in {-1, 0, 1}
LocksHold == lk \subseteq Leaves
=============================================================================
