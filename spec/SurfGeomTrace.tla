--------------------------- MODULE SurfGeomTrace ---------------------------
(* P18: queries recorded from the implementation, on geometry made of integers (scaled and moved by the harness) *)
EXTENDS SurfGeom, TraceLib
VARIABLES l, g
IsSim(c) == c.k = "simp"
Cands(n, P) == TLCEval(UNION {IF IsSim(g.c[i]) THEN {SimNear(n, g.c[i].s[j], P) : j \in DOMAIN g.c[i].s}
                      ELSE {SphereNear(n, g.c[i].c, g.c[i].r, P)} : i \in DOMAIN g.c})
MinD(S) == (CHOOSE x \in S : \A y \in S : x.d <= y.d).d
Near(e) ==
  \A S \in {Cands(g.n, e.p)} : \A d \in {MinD(S)} :
    LET lim == 500*e.max IN
    IF e.max >= 0 /\ d > lim + 4 THEN Chk("nothing within the distance", e.empty, <<d, lim>>)
    ELSE /\ Chk("finds a point", ~e.empty \/ (e.max >= 0 /\ d >= lim - 4), <<d, e.max>>)
         /\ ~e.empty => Chk("nearest", \E x \in S : x.d <= d + 2 /\ IsNear(g.n, x, e.q), <<e.q, {x \in S : x.d <= d + 2}>>)
Sims == UNION {IF IsSim(g.c[i]) THEN {g.c[i].s[j] : j \in DOMAIN g.c[i].s} ELSE {} : i \in DOMAIN g.c}
Spheres == {i \in DOMAIN g.c : ~IsSim(g.c[i])}
\* how often a piece may report an intersection: pieces of files may be cut further when they are read
Seq2(S) == TLCEval([i \in DOMAIN g.c |-> IF IsSim(g.c[i]) THEN g.c[i].m*Cardinality({x \in S : x[1] = i}) ELSE 0])
RECURSIVE SumM(_, _)
SumM(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + SumM(q, i + 1)
Inter(e) ==
  \A hits \in {TLCEval({h[1] : h \in {SimHit(g.n, s, e.p, e.r) : s \in Sims} \ {<<>>}})} :
    LET On(i, j) == OnSphere(g.n, g.c[i].c, g.c[i].r, e.x[j]) IN
    /\ Chk("every intersection is found", \A h \in hits : \E j \in DOMAIN e.t : AbsV(e.t[j] - h) <= 3, <<hits, e.t>>)
    /\ Chk("every intersection of spheres is found", \A i \in Spheres : Discr(g.n, g.c[i].c, g.c[i].r, e.p, e.r) > 0 =>
         \E j \in DOMAIN e.t : \E k \in DOMAIN e.t : On(i, j) /\ On(i, k) /\ AbsV(e.t[j] - e.t[k]) > 20, e.t)
    /\ Chk("intersections are on the surface", \A j \in DOMAIN e.t :
         \/ \E h \in hits : AbsV(e.t[j] - h) <= 3
         \/ \E i \in Spheres : Discr(g.n, g.c[i].c, g.c[i].r, e.p, e.r) >= 0 /\ On(i, j), <<hits, e.t>>)
    \* each component contributes at most as many as it has
    /\ Chk("number of intersections", Len(e.t) <= 2*Cardinality(Spheres) + SumM(Seq2(
         UNION {IF IsSim(g.c[i]) THEN {<<i, j>> : j \in {k \in DOMAIN g.c[i].s : SimHit(g.n, g.c[i].s[k], e.p, e.r) # <<>>}} ELSE {} : i \in DOMAIN g.c}), 1), <<hits, e.t>>)
\* a table in a CSV file ends with the first empty row; its width is that of the first row, and further entries are ignored
Csv(e) ==
  LET End == IF \E i \in DOMAIN e.rows : e.rows[i] = <<>> THEN (CHOOSE i \in DOMAIN e.rows : e.rows[i] = <<>> /\ \A j \in 1..i-1 : e.rows[j] # <<>>) - 1 ELSE Len(e.rows)
      w == Len(e.rows[1])
      Good(row) == Len(row) >= w /\ \A j \in 1..w : row[j] # 99999
  IN Chk("table", /\ e.ok = (\A i \in 1..End : Good(e.rows[i]))
                  /\ e.ok => e.res = [i \in 1..End |-> SubSeq(e.rows[i], 1, w)], e)
Step(e) == CASE e.ev = "reset" -> g' = e
             [] e.ev = "csv" -> g' = g /\ Csv(e)
             [] e.ev = "near" -> g' = g /\ Near(e)
             [] e.ev = "inter" -> g' = g /\ Inter(e)
TInit == l = 1 /\ g = <<>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_<<l, g>>
=============================================================================
