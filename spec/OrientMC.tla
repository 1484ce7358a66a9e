------------------------------ MODULE OrientMC ------------------------------
(* every combination of faces: the rotation exists exactly if the faces are not the same face of both elements, is unique,
   its inverse belongs to the swapped direction, and the corners correspond one to one *)
EXTENDS Orient, TLC, Json
VARIABLES n, d, kind, str
Strs(m) == IF m = 1 THEN {<<>>} ELSE [1..(m - 1) -> BOOLEAN]
Init == /\ n \in 1..3 /\ d \in Dirs(n)
        /\ \/ kind = "conf" /\ str = <<>>
           \/ kind = "hang" /\ str \in Strs(n)
Next == UNCHANGED <<n, d, kind, str>>
Spec == Init /\ [][Next]_<<n, d, kind, str>>
Same == d.i0 = d.i1 /\ d.s0 = d.s1
Unique == IF Same THEN ~Possible(n, d) ELSE Cardinality(Rotations(n, d)) = 1
Symmetric == ~Same => \A x \in FaceCorners(n, d.i0, d.s0) :
  LET y == Image(n, d, Rot(n, d), x) IN y \in FaceCorners(n, d.i1, d.s1) /\ Image(n, Swap(d), Rot(n, Swap(d)), y) = x
Bijective == ~Same => {Image(n, d, Rot(n, d), x) : x \in FaceCorners(n, d.i0, d.s0)} = FaceCorners(n, d.i1, d.s1)
Out == Same \/ PrintT(<<"SCN", ToJson([n |-> n, d |-> d, kind |-> kind, str |-> str, rot |-> Rot(n, d)])>>)
=============================================================================
