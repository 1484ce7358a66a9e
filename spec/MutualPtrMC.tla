----------------------------- MODULE MutualPtrMC -----------------------------
EXTENDS MutualPtr, TLC, Json
VARIABLE h
O(op, x, y) == h' = Append(h, [op |-> op, a |-> x, b |-> y])
MCInit == Init /\ h = <<>>
Next == \/ \E x \in Slots : Construct(x, x) /\ O("construct", x, x)
        \/ \E x \in Slots : Destroy(x) /\ O("destroy", x, 0)
        \/ \E x, y \in Slots : Pair(x, y) /\ O("pair", x, y)
        \/ \E x \in Slots : Unpair(x) /\ O("unpair", x, 0)
        \/ \E x, y \in Slots : MoveConstruct(x, y) /\ O("mconstruct", x, y)
        \/ \E x, y \in Slots : MoveAssign(x, y) /\ O("massign", x, y)
MCSpec == MCInit /\ [][Next]_<<mvars, h>>
View == mvars
Scenario == PrintT(<<"SCN", ToJson(h')>>)
=============================================================================
