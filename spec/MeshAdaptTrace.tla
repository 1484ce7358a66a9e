--------------------------- MODULE MeshAdaptTrace ---------------------------
(* P03. Meshes without a surface follow MeshAdapt step by step. With a surface, cells appear and disappear for other reasons too
   (see MeshSurfTrace); there the update is judged by what it has to respect. *)
EXTENDS MeshAdapt, TraceLib
M == INSTANCE Mesh
VARIABLES l, prev                       \* prev: the previous snapshot, or <<>>
tvars == <<avars, l, prev>>
CellOf(e) == <<e.rl, e.c>>
El(m, i) == m.E[i + 1]
TreeIds(m) == {i \in 0..(Len(m.E) - 1) : El(m, i).tree}
Cells(m) == TLCEval({CellOf(El(m, i)) : i \in TreeIds(m)})
\* cell -> index
LeafSet(m) == TLCEval({<<m.T[i].l, m.T[i].c>> : i \in DOMAIN m.T})
Locks(m) == {CellOf(El(m, i)) : i \in {j \in TreeIds(m) : El(m, j).lock}}
Pairs(m) == TLCEval({<<CellOf(El(m, i)), El(m, i).h>> : i \in TreeIds(m)})

\* ---- without a surface
Exact(e) ==
  LET p == prev  m == e.m
      want(k) == {CellOf(El(p, i)) : i \in {j \in TreeIds(p) : e.asks[j + 1][k] = 1}}
  IN \A ref0 \in {TLCEval(want(1))} : \A unref0 \in {TLCEval(want(2))} :
     \* an element with both requests has none
     \A ref \in {TLCEval(ref0 \ unref0)} : \A unref \in {TLCEval(unref0 \ ref0)} :
     /\ Update(ref, unref)
     \* Changed(ref, unref), and elements that persist keep their identity
     /\ \A mid \in {TLCEval(AfterUnrefine(ref, unref))} :
         /\ Chk("reported change", e.ret <=> mid # R, <<e.ret, ref, unref>>)
         /\ \A stay \in {{q \in Pairs(p) : (q[1] = Root \/ Parent(q[1]) \in mid) /\ q[1] \notin R'}} : \A mp \in {Pairs(m)} :
               Chk("identity", stay \subseteq mp, stay \ mp)
Follows(m) ==
  /\ \A lv \in {TLCEval(Leaves)} : Chk("cells", Cells(m) = lv /\ LeafSet(m) = lv, <<Cells(m) \ lv, lv \ Cells(m)>>)
  /\ Chk("locks", Locks(m) = lk, <<Locks(m), lk>>)

\* ---- with a surface
RECURSIVE UpTo(_, _, _)
UpTo(x, lev, d) == IF x[1] <= lev THEN x ELSE UpTo(<<x[1] - 1, [i \in 1..d |-> x[2][i] \div 2]>>, lev, d)
\* the subdivided cells of a tree with leaves S
RECURSIVE Inner(_, _)
Inner(S, d) == LET up == TLCEval({UpTo(y, y[1] - 1, d) : y \in {z \in S : z[1] > 0}}) IN IF up = {} THEN {} ELSE TLCEval(up \cup Inner(up, d))
Rec(a) == IF a[1] = a[2] THEN 0 ELSE IF a[1] = 1 THEN 1 ELSE -1
Relational(e) ==
  LET p == prev  m == e.m  d == m.nd IN
  \A mc \in {Cells(m)} : \A ml \in {LeafSet(m)} :
  \A inner \in {Inner(ml, d)} :
  \* requests of the elements and of the body-fitted elements grown from them
  \A kids \in {TLCEval({<<e.asks[k][3], Rec(e.asks[k])>> : k \in DOMAIN e.asks})} :
  \A klock \in {TLCEval({e.asks[k][3] : k \in {j \in DOMAIN e.asks : p.E[j].lock}})} :
  \A pt \in {TLCEval(TreeIds(p))} : \A mp \in {Pairs(m)} :
  \A must \in {TLCEval({i \in pt : Rec(e.asks[i + 1]) = 1 \/ <<i, 1>> \in kids})} :
  \A may \in {TLCEval({i \in pt \ must : (Rec(e.asks[i + 1]) = -1 \/ <<i, -1>> \in kids) /\ ~El(p, i).lock /\ i \notin klock})} :
  LET cell(i) == CellOf(El(p, i))
  IN /\ Chk("requested refinements happen", \A i \in must : cell(i) \notin mc, {cell(i) : i \in {j \in must : cell(j) \in mc}})
     \* merged elements
     /\ \A i \in pt : \A k \in 0..(cell(i)[1] - 1) :
          UpTo(cell(i), k, d) \in mc => Chk("merged elements asked for it and are not locked", k = cell(i)[1] - 1 /\ i \in may, <<cell(i), k>>)
     \* refined elements: by request, or next to something much finer
     /\ \A i \in pt : (cell(i) \in inner) =>
          Chk("refined without a reason",
            i \in must \/ \E dd \in DirsT[d][1] \cup DirsT[d][IF d = 1 THEN 1 ELSE 2] : \E z \in M!Adj(d, cell(i), dd, ml) : z[1] > cell(i)[1] + 1, cell(i))
     \* an element whose cell is still there is still the same element, unless it switched between undeformed and deformed
     /\ LET stay == {<<cell(i), El(p, i).h>> : i \in {j \in pt : j \notin may}}
            lost == {q \in stay \ mp : q[1] \in mc /\ ~\E j \in TreeIds(m) : CellOf(El(m, j)) = q[1] /\ El(m, j).def # (q[2][2] = 1)}
        IN Chk("identity", lost = {}, lost)
     /\ Chk("reported change", {p.E[i].h : i \in DOMAIN p.E} # {m.E[i].h : i \in DOMAIN m.E} => e.ret, e.ret)
RelOk(m) == /\ M!BalancedMesh(m)
            /\ Chk("cells are leaves", Cells(m) \subseteq LeafSet(m), "cells")

Surf(m) == m.sbc >= 0
Keep == UNCHANGED avars
Step(e) ==
  CASE e.ev = "reset" -> nd' = e.nd /\ R' = {} /\ lk' = {} /\ prev' = <<>>
    [] e.ev # "reset" /\ Surf(e.m) ->
         /\ Keep
         /\ prev' = e.m
         /\ RelOk(e.m)
         /\ e.ev = "update" => Relational(e)
    [] e.ev = "update" /\ ~Surf(e.m) -> Exact(e) /\ prev' = e.m
    [] e.ev = "lock" /\ ~Surf(e.m) -> lk' = Locks(e.m) /\ UNCHANGED <<nd, R>> /\ prev' = e.m
    [] OTHER -> Keep /\ prev' = e.m
ObsHere == (l > 1 /\ Trace[l - 1].ev # "reset") => (LET m == Trace[l - 1].m IN ~Surf(m) => Follows(m) /\ M!BalancedMesh(m))
TInit == AInit(1) /\ l = 1 /\ prev = <<>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ ObsHere'
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
