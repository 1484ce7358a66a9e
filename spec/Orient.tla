------------------------------- MODULE Orient -------------------------------
(* How two elements that share a face are oriented relative to each other. A connection names a face of each element by
   dimension and sign. The coordinate system of one element is mapped to that of the other by the rotation that takes the
   outward normal of face 0 to the inward normal of face 1 and leaves the axes that neither face is normal to alone.
   An orthogonal map is a function A on axes: A[i] = j or -j when the i-th unit vector goes to plus or minus the j-th. *)
EXTENDS Integers, FiniteSets, Sequences
LOCAL Ab(x) == IF x < 0 THEN -x ELSE x
LOCAL Sg(x) == IF x < 0 THEN -1 ELSE 1
Signed(n) == (-n..-1) \cup (1..n)
Maps(n) == {A \in [1..n -> Signed(n)] : Cardinality({Ab(A[i]) : i \in 1..n}) = n}
Inversions(n, A) == Cardinality({p \in (1..n) \X (1..n) : p[1] < p[2] /\ Ab(A[p[1]]) > Ab(A[p[2]])})
Negatives(n, A) == Cardinality({i \in 1..n : A[i] < 0})
Det(n, A) == IF (Inversions(n, A) + Negatives(n, A)) % 2 = 0 THEN 1 ELSE -1
\* a direction: dimensions (from 1) and signs (0 or 1) of the two faces
Dirs(n) == [i0 : 1..n, s0 : {0, 1}, i1 : 1..n, s1 : {0, 1}]
Swap(d) == [i0 |-> d.i1, s0 |-> d.s1, i1 |-> d.i0, s1 |-> d.s0]
Sigma(s) == 2*s - 1
Rotations(n, d) == {A \in Maps(n) :
  /\ Det(n, A) = 1
  /\ A[d.i0] = -Sigma(d.s0)*Sigma(d.s1)*d.i1
  /\ \A j \in 1..n : (j # d.i0 /\ j # d.i1) => A[j] = j}
Possible(n, d) == Rotations(n, d) # {}
Rot(n, d) == CHOOSE A \in Rotations(n, d) : TRUE
\* corners: [1..n -> {0, 1}]
Corners(n) == [1..n -> {0, 1}]
FaceCorners(n, i, s) == {x \in Corners(n) : x[i] = s}
\* corner of element 1 which is the same point as corner x of face 0
Image(n, d, A, x) == [j \in 1..n |-> IF j = d.i1 THEN d.s1 ELSE
   LET i == CHOOSE k \in 1..n : Ab(A[k]) = j IN IF A[i] > 0 THEN x[i] ELSE 1 - x[i]]
\* number (from 0) of a corner in an element's list, the first dimension varying slowest
RECURSIVE Num(_, _, _)
Num(n, x, k) == IF k = 0 THEN 0 ELSE 2*Num(n, x, k - 1) + x[k]
CornerIdx(n, x) == Num(n, x, n)
\* number of the fine element (in the order of the fine face's own tangential dimensions) that covers corner y of a coarser face;
\* str: tangential dimensions which are not split
Tang(n, i) == [k \in 1..(n - 1) |-> IF k < i THEN k ELSE k + 1]
RECURSIVE FineNum(_, _, _, _)
FineNum(y, t, str, k) == IF k = 0 THEN 0 ELSE IF str[k] THEN FineNum(y, t, str, k - 1) ELSE 2*FineNum(y, t, str, k - 1) + y[t[k]]
FineIdx(n, d, y, str) == FineNum(y, Tang(n, d.i1), str, n - 1)
=============================================================================
