----------------------------- MODULE OrientTrace -----------------------------
(* P02: connections of individually placed elements, in every orientation. Events: elements are added, their vertices placed,
   and two or more of them connected; before connecting, corresponding corners were placed at the same points. *)
EXTENDS Mesh, Orient
VARIABLES l, pos                    \* pos: handle -> positions of the vertices of that element
DirOf(e) == [i0 |-> e.f0 \div 2 + 1, s0 |-> e.f0 % 2, i1 |-> e.f1 \div 2 + 1, s1 |-> e.f1 % 2]
At(m, h) == CHOOSE i \in 0..(N(m) - 1) : El(m, i).h = h
B2(b) == IF b THEN 1 ELSE 0
Vert(m, i, x) == El(m, i).v[CornerIdx(m.nd, x) + 1]
Places(m) == [h \in {m.E[i].h : i \in DOMAIN m.E} |-> [k \in 1..Pow2[m.nd] |-> m.P[El(m, At(m, h)).v[k] + 1]]]
Conf(m, d, a, b) == \A A \in {Rot(m.nd, d)} :
  /\ Ok("corners correspond", \A x \in FaceCorners(m.nd, d.i0, d.s0) : Vert(m, a, x) = Vert(m, b, Image(m.nd, d, A, x)), <<d, A>>)
  /\ Ok("only the corners of the face are shared", Len(m.P) = 2*Pow2[m.nd] - Pow2[m.nd - 1], Len(m.P))
  /\ Ok("connection", \E i \in DOMAIN m.C : LET c == m.C[i] IN c.a = a /\ c.b = b /\ c.af = 2*(d.i0 - 1) + d.s0 /\ c.bf = 2*(d.i1 - 1) + d.s1 /\ c.gap <= 20, m.C)
Hang(m, d, co, fine, str) == \A A \in {Rot(m.nd, d)} :
  /\ Ok("corners correspond", \A x \in FaceCorners(m.nd, d.i0, d.s0) : \A y \in {Image(m.nd, d, A, x)} :
        Vert(m, co, x) = Vert(m, fine[FineIdx(m.nd, d, y, str) + 1], y), <<d, A, str>>)
  /\ Ok("only the corners of the coarse face are shared", Len(m.P) = (1 + Len(fine))*Pow2[m.nd] - Pow2[m.nd - 1], Len(m.P))
  /\ Ok("connection", \E i \in DOMAIN m.H : LET h == m.H[i] IN h.co = co /\ {h.fine[k] : k \in DOMAIN h.fine} = {fine[k] : k \in DOMAIN fine}
        /\ h.cf = 2*(d.i0 - 1) + d.s0 /\ h.ff = 2*(d.i1 - 1) + d.s1 /\ h.gap <= 20, m.H)
Step(e) ==
  \/ e.ev = "reset" /\ pos' = <<>>
  \/ e.ev \in {"add", "place"} /\ pos' = Places(e.m)
  \/ e.ev \in {"condef", "concar", "conhang"} /\ pos' = pos /\ Vertices(e.m)
     /\ Ok("connecting elements that fit does not move them", \A p \in {Places(e.m)} : \A h \in DOMAIN pos : \A k \in DOMAIN pos[h] :
           \A j \in 1..e.m.nd : Abs(p[h][k][j] - pos[h][k][j]) <= 2, "pos")
     /\ CASE e.ev = "condef" -> Conf(e.m, DirOf(e), At(e.m, <<e.rl, 1, e.s0>>), At(e.m, <<e.rl, 1, e.s1>>))
          [] e.ev = "concar" -> Conf(e.m, [i0 |-> e.dim + 1, s0 |-> 1, i1 |-> e.dim + 1, s1 |-> 0], At(e.m, <<e.rl, B2(e.d0), e.s0>>), At(e.m, <<e.rl, B2(e.d1), e.s1>>))
          [] e.ev = "conhang" -> Hang(e.m, DirOf(e), At(e.m, <<e.rl, B2(e.cd), e.co>>),
                [k \in DOMAIN e.fine |-> At(e.m, <<e.rl + 1, B2(e.fd), e.fine[k]>>)], <<e.st[1] = 1, e.st[2] = 1>>)
TInit == l = 1 /\ pos = <<>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_<<l, pos>>
=============================================================================
