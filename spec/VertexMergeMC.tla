--------------------------- MODULE VertexMergeMC ---------------------------
(* Exhaustive exploration with small constants. `h` is the history of operations; it is hidden by VIEW, so that each
   distinct state is explored once, and every transition out of it is printed as one scenario for the implementation. *)
EXTENDS VertexMerge, TLC, Json
CONSTANTS D, Emit
VARIABLE h
Pos(k) == 2520*k*k   \* distinct positions, divisible by the masses
O(op, a, b, c) == h' = Append(h, [op |-> op, a |-> a, b |-> b, c |-> c])
MCInit == Init /\ h = <<>>
\* slots are filled in order (symmetry)
FirstFree(p) == vOf[p] = Null /\ \A q \in TP : q < p => vOf[q] # Null
NFirstFree(n) == nOf[n] = -1 /\ \A m \in NP : m < n => nOf[m] # -1
Next ==
  \/ \E p \in TP : FirstFree(p) /\ \E m \in BOOLEAN : New(p, Pos(p), m, p) /\ O("new", p, IF m THEN 1 ELSE 0, Pos(p))
  \/ \E p, q \in TP : FirstFree(p) /\ Copy(p, q, p) /\ O("copy", p, q, p)
  \/ \E p, q \in TP : Assign(p, q) /\ O("assign", p, q, 0)
  \/ \E p \in TP : Destroy(p) /\ O("destroy", p, 0, 0)
  \/ \E p \in TP : vOf[p] # Null /\ SetSmooth(p, ~smooth[p]) /\ O("smooth", p, IF smooth[p] THEN 0 ELSE 1, 0)
  \/ \E p, q \in TP : p < q /\ Connect(p, q) /\ O("connect", p, q, 0)
  \/ \E p \in TP : vOf[p] # Null /\ Len(rec[vOf[p]]) < 1 /\ PushRecord(p, p) /\ O("record", p, p, 0)
  \/ \E p, q \in TP : p # q /\ vOf[p] # Null /\ vOf[q] # Null
       /\ LET a == vOf[p]  b == vOf[q]
              x == IF a = b THEN pos[a] ELSE (Mass(a)*pos[a] + Mass(b)*pos[b]) \div (Mass(a) + Mass(b))
          IN Eat(p, q, x) /\ O("eat", p, q, 0)
  \/ \E n \in NP, p \in TP : NFirstFree(n) /\ NNew(n, p) /\ O("nnew", n, p, 0)
  \/ \E n, m \in NP : NFirstFree(n) /\ NCopy(n, m) /\ O("ncopy", n, m, 0)
  \/ \E n, m \in NP : NAssign(n, m) /\ O("nassign", n, m, 0)
  \/ \E n \in NP : nOf[n] > 0 /\ NNull(n) /\ O("nnull", n, 0, 0)
  \/ \E n \in NP : NDestroy(n) /\ O("ndestroy", n, 0, 0)
MCSpec == MCInit /\ [][Next]_<<vars, h>>
\* vertices named by their smallest owner: states that differ only in names are explored once
Rep(v) == CHOOSE p \in Owners(v) : \A q \in Owners(v) : p <= q
View == <<[p \in TP |-> IF vOf[p] = Null THEN 0 ELSE Rep(vOf[p])],
          [p \in TP |-> vOf[p] # Null /\ mobile[p]], [p \in TP |-> vOf[p] # Null /\ smooth[p]],
          [n \in NP |-> IF nOf[n] > 0 THEN Rep(nOf[n]) ELSE nOf[n]],
          {{Rep(v) : v \in e} : e \in nbr}, {<<Rep(v), Len(rec[v])>> : v \in Live}>>
Bound == Len(h) < D
Scenario == Emit => PrintT(<<"SCN", ToJson(h')>>)
=============================================================================
