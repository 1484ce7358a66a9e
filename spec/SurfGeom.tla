------------------------------ MODULE SurfGeom ------------------------------
(* What surface geometry is and what can be asked about it (P18): a set of components, which are spheres and simplices
   (segments in 2D, triangles in 3D) whose vertices, centers and radii are integer. The nearest point and the intersections
   with a line are calculated exactly, with integers, by going through all components.
   Units: `d` distances and `q` positions in 1/1000, `t` parameters of intersections in 1/10000. *)
EXTENDS Integers, Sequences, FiniteSets
Ax(n) == 1..n
Dot(n, a, b) == IF n = 1 THEN a[1]*b[1] ELSE IF n = 2 THEN a[1]*b[1] + a[2]*b[2] ELSE a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Sub(n, a, b) == [i \in Ax(n) |-> a[i] - b[i]]
Sq(n, a) == Dot(n, a, a)
Cross(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
AbsV(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Newton(_, _)
Newton(x, n) == LET y == (x + (n \div x)) \div 2 IN IF y >= x THEN x ELSE Newton(y, n)
Isqrt(n) == IF n < 2 THEN n ELSE Newton(IF n > 1000000 THEN 50000 ELSE 1001, n)
\* num/den in 1/1000000, for num >= 0 and den > 0
Scale6(num, den) == LET q == num \div den r == num % den r3 == (r*1000) \div den s == (r*1000) % den IN q*1000000 + r3*1000 + ((s*1000) \div den)
Times(n, k, a) == [i \in Ax(n) |-> k*a[i]]

\* ---- nearest points: [d |-> distance, q |-> point]
SegNear(n, A, B, P) ==
  LET D == Sub(n, B, A) v == Sub(n, P, A) dd == Sq(n, D) k == Dot(n, v, D) IN
  IF dd = 0 \/ k <= 0 THEN [d |-> Isqrt(1000000*Sq(n, v)), q |-> Times(n, 1000, A)]
  ELSE IF k >= dd THEN [d |-> Isqrt(1000000*Sq(n, Sub(n, P, B))), q |-> Times(n, 1000, B)]
  ELSE [d |-> Isqrt(Scale6(Sq(n, v)*dd - k*k, dd)), q |-> [i \in Ax(n) |-> 1000*A[i] + ((1000*k*D[i]) \div dd)]]
Nearer(a, b) == IF b.d < a.d THEN b ELSE a
TriNear(A, B, C, P) ==
  LET e == Sub(3, B, A) f == Sub(3, C, A) N == Cross(e, f) v == Sub(3, P, A) NN == Sq(3, N) k == Dot(3, v, N)
      over == /\ NN > 0
              /\ Dot(3, N, Cross(e, v)) >= 0
              /\ Dot(3, N, Cross(Sub(3, C, B), Sub(3, P, B))) >= 0
              /\ Dot(3, N, Cross(Sub(3, A, C), Sub(3, P, C))) >= 0
  IN IF over THEN [d |-> Isqrt(Scale6(k*k, NN)), q |-> [i \in Ax(3) |-> 1000*P[i] - ((1000*k*N[i]) \div NN)]]
     ELSE Nearer(SegNear(3, A, B, P), Nearer(SegNear(3, B, C, P), SegNear(3, C, A, P)))
SimNear(n, s, P) == IF n = 2 THEN SegNear(2, s[1], s[2], P) ELSE TriNear(s[1], s[2], s[3], P)
\* of a sphere. From its center all directions are as good
SphereNear(n, c, r, P) ==
  LET v == Sub(n, P, c) s == Isqrt(1000000*Sq(n, v)) IN
  [d |-> AbsV(s - 1000*r), q |-> IF s = 0 THEN <<>> ELSE [i \in Ax(n) |-> 1000*c[i] + ((1000000*r*v[i]) \div s)], c |-> c, r |-> r]
Close(n, a, b, tol) == \A i \in Ax(n) : AbsV(a[i] - b[i]) <= tol
\* a point (in 1/1000) is on a sphere
OnSphere(n, c, r, q) == LET v == Sub(n, q, Times(n, 1000, c)) IN (\A i \in Ax(n) : AbsV(v[i]) < 26000) /\ AbsV(Sq(n, v) - 1000000*r*r) <= 10000*r + 100
IsNear(n, x, q) == IF x.q = <<>> THEN OnSphere(n, x.c, x.r, q) ELSE Close(n, x.q, q, 4)

\* ---- intersections with the line through P0 (t = 0) and P1 (t = 1): <<>> or <<t>>
T(num, den) == LET nn == IF den < 0 THEN -num ELSE num dd == AbsV(den) q == nn \div dd r == nn % dd IN q*10000 + ((r*10000) \div dd)
SegHit(A, B, P0, P1) ==
  LET D == Sub(2, P1, P0) e == Sub(2, B, A) v == Sub(2, A, P0)
      den == D[1]*e[2] - D[2]*e[1]                 \* D x e
      tn == v[1]*e[2] - v[2]*e[1]                  \* t = (v x e)/(D x e)
      un == v[1]*D[2] - v[2]*D[1]                  \* u = (v x D)/(D x e)
      s == IF den < 0 THEN -1 ELSE 1
  IN IF den = 0 THEN <<>> ELSE IF s*un >= 0 /\ s*un <= s*den THEN <<T(tn, den)>> ELSE <<>>
TriHit(A, B, C, P0, P1) ==
  LET D == Sub(3, P1, P0) e == Sub(3, B, A) f == Sub(3, C, A) N == Cross(e, f)
      den == Dot(3, N, D) num == Dot(3, N, Sub(3, A, P0))
      s == IF den < 0 THEN -1 ELSE 1
      X == [i \in Ax(3) |-> s*(den*P0[i] + num*D[i])]    \* the point of the plane, times |den|
      dd == s*den
      In(U, V) == Dot(3, N, Cross(Sub(3, V, U), Sub(3, X, Times(3, dd, U)))) >= 0
  IN IF den = 0 THEN <<>> ELSE IF In(A, B) /\ In(B, C) /\ In(C, A) THEN <<T(num, den)>> ELSE <<>>
SimHit(n, s, P0, P1) == IF n = 2 THEN SegHit(s[1], s[2], P0, P1) ELSE TriHit(s[1], s[2], s[3], P0, P1)
\* discriminant of a sphere and a line: how many intersections there are is its sign
Discr(n, c, r, P0, P1) ==
  LET D == Sub(n, P1, P0) v == Sub(n, P0, c) b == Dot(n, D, v) IN b*b - Sq(n, D)*(Sq(n, v) - r*r)
=============================================================================
