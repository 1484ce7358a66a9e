------------------------------ MODULE TreeTrace ------------------------------
EXTENDS TreeModel, TraceLib
VARIABLE l
N(x) == <<x[1], [i \in Dims |-> x[i + 1]]>>       \* recorded node
Opt(x) == IF x = <<>> THEN {} ELSE {N(x)}         \* recorded node or null
Ids(xs) == [i \in DOMAIN xs |-> N(xs[i])]

RelOk(r) ==
  LET n == N(r.n) IN
  /\ Chk("node exists", n \in Nodes, r.n)
  /\ Chk("links", r.links /\ r.geom, r)
  /\ Chk("parent", Opt(r.parent) = IF n = Root THEN {} ELSE {Parent(n)}, r)
  /\ Chk("children", Ids(r.ch) = IF n \in refined THEN [k \in 1..Pow(nd) |-> Child(n, k - 1)] ELSE <<>>, r)
  /\ Chk("count", r.count = Cardinality(Desc(n)), r)
  /\ \A i \in DOMAIN r.nb :
       LET q == r.nb[i]
           s == Neighbors(n, q.d)
           ordered == SelectSeq(DFS(Root), LAMBDA m : m \in s)
       IN /\ Chk("find_neighbors", Ids(q.all) = ordered, <<r.n, q, ordered>>)
          /\ Chk("find_neighbor", Opt(q.one) = IF s = {} THEN {} ELSE {ordered[1]}, <<r.n, q, ordered>>)
PtOk(r) ==
  LET n == N(r.from)
      inside(m) == \A i \in Dims : LET L == Max(m[1], r.rl)  x == r.c[i]*Pow(L - r.rl) IN Lo(m, i, L) <= x /\ x <= Hi(m, i, L)
  IN /\ Chk("find_leaf", Opt(r.leaf) = LeafAt(n, r.rl, r.c, r.b), <<r, LeafAt(n, r.rl, r.c, r.b)>>)
     /\ Chk("find_leaf at a position", IF inside(n) THEN \E m \in LeafDesc(n) : inside(m) /\ Opt(r.pos) = {m}
                                       ELSE r.pos = <<>>, r)
Probe(e) ==
  /\ \A i \in DOMAIN e.rel : RelOk(e.rel[i])
  /\ \A i \in DOMAIN e.pts : PtOk(e.pts[i])
  /\ UNCHANGED tvars

StObs(e) ==
  e.ev # "probe" =>
    /\ Chk("nodes", {N(e.nodes[i][1]) : i \in DOMAIN e.nodes} = Nodes /\ Len(e.nodes) = Cardinality(Nodes), <<e, Nodes>>)
    /\ Chk("statuses", \A i \in DOMAIN e.nodes : LET n == N(e.nodes[i][1]) IN
                          \* the status of a cell that is not a leaf carries no meaning for the fill
                          n \in refined \/ st[n] = e.nodes[i][2], <<e, st>>)
    /\ Chk("count", e.count = Cardinality(Nodes), e)
Reset(e) == /\ nd' = e.nd /\ refined' = {} /\ st' = [n \in {<<0, [i \in 1..e.nd |-> 0]>>} |-> Unproc]
Step(e) ==
  CASE e.ev = "reset" -> Reset(e)
    [] e.ev = "refine" -> Refine(N(e.n))
    [] e.ev = "unrefine" -> Unrefine(N(e.n))
    [] e.ev = "status" -> SetStatus(N(e.n), e.s)
    [] e.ev = "clear" -> Clear(N(e.n))
    [] e.ev = "fill" -> FloodFill(N(e.n), e.s)
    [] e.ev = "probe" -> Probe(e)
ObsHere == l > 1 => StObs(Trace[l - 1])
TInit == Init(1) /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ ObsHere'
TSpec == TInit /\ [][TNext]_<<tvars, l>>
=============================================================================
