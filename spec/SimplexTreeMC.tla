---------------------------- MODULE SimplexTreeMC ----------------------------
(* How the implementation answers queries about many simplices (2D): the simplices sink into a quadtree, a simplex into the child
   that contains it strictly, and a query skips nodes and simplices whose bounding balls it misses. For every segment, and every
   line and point with a limit, the segment has to be reached if it is hit or if it is within the limit. Calculated exactly with
   integers: the root has side 2*Half, everything is doubled so that centers are integer. *)
EXTENDS SurfGeom
CONSTANTS Side, Reach, LineStep, MaxL
VARIABLES seg, query, level, node
vars == <<seg, query, level, node>>
Pts == (0..Side) \X (0..Side)
Segs == {<<a, b>> \in Pts \X Pts : a # b /\ AbsV(a[1] - b[1]) <= Reach /\ AbsV(a[2] - b[2]) <= Reach /\ (a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))}
Coarse == {p \in Pts : p[1] % LineStep = 0 /\ p[2] % LineStep = 0}
Lines == {<<"line", p, q>> : <<p, q>> \in {x \in Coarse \X Pts : x[1] # x[2] /\ AbsV(x[1][1] - x[2][1]) <= 3 /\ AbsV(x[1][2] - x[2][2]) <= 3}}
Points == {<<"point", p, <<lim>>>> : p \in Coarse, lim \in {1, 2, 3, 5}}     \* limit in halves
Size(lev) == Side \div (2^lev)
\* in doubled coordinates
Center == <<2*Size(level)*node[1] + Size(level), 2*Size(level)*node[2] + Size(level)>>
In(lev, nd, p) == \A i \in 1..2 : p[i] > Size(lev)*nd[i] /\ p[i] < Size(lev)*(nd[i] + 1)
Init == seg \in Segs /\ query \in Lines \cup Points /\ level = 0 /\ node = <<0, 0>>
Descend == \E o \in {0, 1} \X {0, 1} :
  LET c == <<2*node[1] + o[1], 2*node[2] + o[2]>> IN
  /\ level < MaxL
  /\ In(level + 1, c, seg[1]) /\ In(level + 1, c, seg[2])
  /\ level' = level + 1 /\ node' = c /\ UNCHANGED <<seg, query>>
Next == Descend
Spec == Init /\ [][Next]_vars
D2(a, b) == Sub(2, Times(2, 2, a), b)        \* doubled a, minus b
\* squared distance from a point c (doubled) to the line, times |D|^2: compared with radius^2
LineMiss(c, r2) ==   \* r2: squared radius in doubled units
  LET D == Sub(2, query[3], query[2]) v == Sub(2, c, Times(2, 2, query[2])) x == v[1]*D[2] - v[2]*D[1] IN x*x > r2*Sq(2, D)
\* |c - p| - sqrt(r2) > limit, in doubled units
PointMiss(c, r2) ==
  LET a == Sq(2, Sub(2, c, Times(2, 2, query[2]))) b == query[3][1] m == a - b*b - r2 IN m > 0 /\ m*m > 4*b*b*r2
Miss(c, r2) == IF query[1] = "line" THEN LineMiss(c, r2) ELSE PointMiss(c, r2)
Hit == IF query[1] = "line" THEN SegHit(seg[1], seg[2], query[2], query[3]) # <<>>
       ELSE LET D == Sub(2, seg[2], seg[1]) v == Sub(2, query[2], seg[1]) k == Dot(2, v, D) dd == Sq(2, D)
                \* 4*distance^2 <= limit^2
            IN IF k <= 0 THEN 4*Sq(2, v) <= query[3][1]*query[3][1]
               ELSE IF k >= dd THEN 4*Sq(2, Sub(2, query[2], seg[2])) <= query[3][1]*query[3][1]
               ELSE 4*(Sq(2, v)*dd - k*k) <= query[3][1]*query[3][1]*dd
\* the ball around a node: half of its diagonal. Doubled: size^2*2
NodeReached == Hit => ~Miss(Center, 2*Size(level)*Size(level))
\* the bounding ball of the segment: around the mean of its ends. Doubled: |B - A|^2
SegReached == Hit => ~Miss([i \in 1..2 |-> seg[1][i] + seg[2][i]], Sq(2, Sub(2, seg[2], seg[1])))
=============================================================================
