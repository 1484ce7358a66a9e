----------------------------- MODULE VertexTrace -----------------------------
(* Recorded executions of the real vertices against VertexMerge: every event carries the operation and the complete
   observable state after it. *)
EXTENDS VertexMerge, TraceLib
VARIABLE l

E == Trace[l]
Rep(v) == CHOOSE p \in Owners(v) : \A q \in Owners(v) : p <= q
\* the observable state in the event equals the (primed) state of the specification
Obs(e) ==
  /\ Chk("ownership", \A p \in TP : e.own[p] = IF vOf[p] = Null THEN 0 ELSE Rep(vOf[p]), <<vOf, e>>)
  /\ Chk("observers", \A n \in NP : e.obs[n] = IF nOf[n] > 0 THEN Rep(nOf[n]) ELSE nOf[n], <<nOf, e>>)
  /\ Chk("vertices", {e.verts[i].rep : i \in DOMAIN e.verts} = {Rep(v) : v \in Live}, <<Live, e>>)
  /\ \A i \in DOMAIN e.verts :
       LET w == e.verts[i]  v == vOf[w.rep] IN
       /\ Chk("mass", w.mass = Mass(v), w)
       /\ Chk("mobile", w.mobile = IsMobile(v), w)
       /\ Chk("smooth", w.smooth = NeedsSmooth(v), w)
       /\ Chk("share", w.max = MaxShare(v) /\ w.min = MinShare(v), w)
       /\ Chk("pos", Abs(w.pos - pos[v]) <= 0 /\ w.iso, <<w, pos[v]>>)
       /\ Chk("record", w.rec = rec[v], <<w, rec[v]>>)
       /\ Chk("neighbors", Range(w.nbr) = {Rep(x) : x \in Neighbors(v)} /\ Len(w.nbr) = Cardinality(Neighbors(v)), w)
       /\ Chk("neighbors symmetric", Range(w.nbr2) = Range(w.nbr), w)
NewPos(e) == LET ws == {e.verts[i] : i \in DOMAIN e.verts} IN
             (CHOOSE w \in ws : w.rep = e.own[e.a]).pos
Step(e) ==
  CASE e.ev = "reset" -> /\ vOf' = [p \in TP |-> Null] /\ mobile' = [p \in TP |-> FALSE] /\ smooth' = [p \in TP |-> TRUE]
                         /\ share' = [p \in TP |-> 0] /\ nOf' = [n \in NP |-> -1] /\ nbr' = {} /\ pos' = <<>> /\ rec' = <<>>
                         /\ next' = 1
    [] e.ev = "new" -> New(e.a, e.c, e.b = 1, e.a)
    [] e.ev = "copy" -> Copy(e.a, e.b, e.c)
    [] e.ev = "assign" -> Assign(e.a, e.b)
    [] e.ev = "destroy" -> Destroy(e.a)
    [] e.ev = "smooth" -> SetSmooth(e.a, e.b = 1)
    [] e.ev = "share" -> SetShare(e.a, e.b)
    [] e.ev = "record" -> PushRecord(e.a, e.b)
    [] e.ev = "connect" -> Connect(e.a, e.b)
    [] e.ev = "eat" -> Eat(e.a, e.b, NewPos(e))
    [] e.ev = "nnew" -> NNew(e.a, e.b)
    [] e.ev = "ncopy" -> NCopy(e.a, e.b)
    [] e.ev = "nassign" -> NAssign(e.a, e.b)
    [] e.ev = "nnull" -> NNull(e.a)
    [] e.ev = "ndestroy" -> NDestroy(e.a)
TInit == Init /\ l = 1
ObsHere == l > 1 => Obs(Trace[l - 1])   \* primed below: the event that was just explained
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(E) /\ ObsHere'
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
