------------------------------ MODULE MutualPtr ------------------------------
(* Mutually connected pointers. Slots of kind "a" hold pointers that belong to data of kind A and can be paired with
   pointers in slots of kind "b". mine = 0: the slot is empty; otherwise the name of the datum it is associated with. *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS SA, SB            \* disjoint slots
VARIABLES mine, partner     \* [slot -> datum], [slot -> slot or 0]
mvars == <<mine, partner>>
Slots == SA \cup SB
Same(x, y) == (x \in SA) <=> (y \in SA)
Live(x) == mine[x] # 0

Init == mine = [x \in Slots |-> 0] /\ partner = [x \in Slots |-> 0]

\* partner function with every pair that involves a slot of X broken
Broken(X) == [y \in Slots |-> IF y \in X \/ partner[y] \in X THEN 0 ELSE partner[y]]

Construct(x, d) == /\ ~Live(x) /\ mine' = [mine EXCEPT ![x] = d] /\ UNCHANGED partner
Destroy(x) == /\ Live(x) /\ mine' = [mine EXCEPT ![x] = 0] /\ partner' = Broken({x})
Pair(x, y) == /\ Live(x) /\ Live(y) /\ ~Same(x, y)
              /\ partner' = [Broken({x, y}) EXCEPT ![x] = y, ![y] = x] /\ UNCHANGED mine
Unpair(x) == /\ Live(x) /\ partner' = Broken({x}) /\ UNCHANGED mine
\* moving: x takes over the datum of y and, if y is paired, its partner
Stolen(x, y) == IF partner[y] = 0 THEN Broken({x})
                ELSE LET p == partner[y] IN [Broken({x, y, p}) EXCEPT ![x] = p, ![p] = x]
MoveConstruct(x, y) == /\ ~Live(x) /\ Live(y) /\ Same(x, y) /\ x # y
                       /\ mine' = [mine EXCEPT ![x] = mine[y]] /\ partner' = Stolen(x, y)
MoveAssign(x, y) == /\ Live(x) /\ Live(y) /\ Same(x, y) /\ x # y
                    /\ mine' = [mine EXCEPT ![x] = mine[y]] /\ partner' = Stolen(x, y)

\* ---- properties
Symmetric == \A x \in Slots : partner[x] # 0 => partner[partner[x]] = x
NoDangling == \A x \in Slots : partner[x] # 0 => Live(x) /\ Live(partner[x]) /\ ~Same(x, partner[x])
=============================================================================
