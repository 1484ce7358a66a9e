------------------------------- MODULE TreeMC -------------------------------
(* Exhaustive: every tree of ND dimensions up to level MaxL; with Fill=TRUE also barriers and flood fills. *)
EXTENDS TreeModel, TLC, Json
CONSTANTS ND, MaxL, DoFill, Emit, MaxLeaves
VARIABLE h
O(op, n, s) == h' = Append(h, [op |-> op, l |-> n[1], c |-> n[2], s |-> s])
MCInit == Init(ND) /\ h = <<>>
Barriers == {n \in Leaves : st[n] = 0}
Next ==
  \/ \E n \in Leaves : n[1] < MaxL /\ (\A m \in Nodes : st[m] = Unproc) /\ Refine(n) /\ O("refine", n, 0)
  \/ \E n \in refined : (\A m \in Nodes : st[m] = Unproc) /\ Unrefine(n) /\ O("unrefine", n, 0)
  \/ DoFill /\ (\A m \in Nodes : st[m] \in {Unproc, 0})
       /\ \E n \in Leaves : st[n] = Unproc /\ SetStatus(n, 0) /\ O("status", n, 0)
  \/ DoFill /\ (\A m \in Nodes : st[m] \in {Unproc, 0}) /\ \E n \in Nodes : FloodFill(n, 1) /\ O("fill", n, 1)
  \/ DoFill /\ (\E m \in Nodes : st[m] = 1) /\ Clear(Root) /\ O("clear", Root, 0)
MCSpec == MCInit /\ [][Next]_<<tvars, h>>
View == tvars
Scenario == Emit => PrintT(<<"SCN", ToJson(h')>>)
\* the filled set: no filled leaf has an unprocessed face neighbor, and the fill does not cross or change barriers
FaceNbrDef == \A n \in Leaves : FaceNeighbors(n) = UNION {Neighbors(n, d) : d \in FaceDirs}
Small == Cardinality(Leaves) <= MaxLeaves
FillClosed == \A n \in Leaves : st[n] = 1 => \A m \in FaceNeighbors(n) : st[m] # Unproc
=============================================================================
