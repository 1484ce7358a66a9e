---------------------------- MODULE VertexMerge ----------------------------
(* Shared mesh vertices: elements own grid points jointly through transferable pointers; when connectivity is
   established one vertex `eats` another. Non-transferable pointers observe a vertex without owning it.
   One action per public operation. Positions are integers (scaled); an average is a pair of bounds (see AvgOk). *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS TP,       \* transferable pointer slots
          NP        \* non-transferable pointer slots

Null == 0

VARIABLES vOf,      \* [TP -> vertex or Null (slot empty)]
          mobile,   \* [TP -> BOOLEAN]
          smooth,   \* [TP -> BOOLEAN]
          share,    \* [TP -> Int]
          nOf,      \* [NP -> vertex, Null (nullified) or -1 (slot empty)]
          nbr,      \* set of two-element sets of vertices
          pos,      \* [vertex -> Int]
          rec,      \* [vertex -> Seq(Int)]
          next      \* next fresh vertex name

vars == <<vOf, mobile, smooth, share, nOf, nbr, pos, rec, next>>

Live == {vOf[p] : p \in TP} \ {Null}
Owners(v) == {p \in TP : vOf[p] = v}
Mass(v) == Cardinality(Owners(v))
IsMobile(v) == \A p \in Owners(v) : mobile[p]
NeedsSmooth(v) == \E p \in Owners(v) : smooth[p]
MaxShare(v) == CHOOSE x \in {share[p] : p \in Owners(v)} : \A p \in Owners(v) : share[p] <= x
MinShare(v) == CHOOSE x \in {share[p] : p \in Owners(v)} : \A p \in Owners(v) : share[p] >= x
Neighbors(v) == {w \in Live : w # v /\ {v, w} \in nbr}

Init ==
  /\ vOf = [p \in TP |-> Null]
  /\ mobile = [p \in TP |-> FALSE]
  /\ smooth = [p \in TP |-> TRUE]
  /\ share = [p \in TP |-> 0]
  /\ nOf = [n \in NP |-> -1]
  /\ nbr = {}
  /\ pos = <<>>
  /\ rec = <<>>
  /\ next = 1

\* the state after the pointers in vOf1 own what they own: vertices without an owner are gone, their observers are null
Collect(vOf1, nOf1, nbr1, pos1, rec1) ==
  LET live == {vOf1[p] : p \in TP} \ {Null} IN
  /\ vOf' = vOf1
  /\ nOf' = [n \in NP |-> IF nOf1[n] > 0 /\ nOf1[n] \notin live THEN Null ELSE nOf1[n]]
  /\ nbr' = {e \in nbr1 : e \subseteq live}
  /\ pos' = [v \in live |-> pos1[v]]
  /\ rec' = [v \in live |-> rec1[v]]

New(p, x, m, s) ==
  /\ vOf[p] = Null
  /\ vOf' = [vOf EXCEPT ![p] = next]
  /\ mobile' = [mobile EXCEPT ![p] = m]
  /\ smooth' = [smooth EXCEPT ![p] = TRUE]
  /\ share' = [share EXCEPT ![p] = s]
  /\ pos' = [v \in Live \cup {next} |-> IF v = next THEN x ELSE pos[v]]
  /\ rec' = [v \in Live \cup {next} |-> IF v = next THEN <<>> ELSE rec[v]]
  /\ next' = next + 1
  /\ UNCHANGED <<nOf, nbr>>

\* copy construction: another owner of the same vertex, with its own shared value
Copy(p, q, s) ==
  /\ vOf[p] = Null
  /\ vOf[q] # Null
  /\ vOf' = [vOf EXCEPT ![p] = vOf[q]]
  /\ mobile' = [mobile EXCEPT ![p] = mobile[q]]
  /\ smooth' = [smooth EXCEPT ![p] = TRUE]
  /\ share' = [share EXCEPT ![p] = s]
  /\ UNCHANGED <<nOf, nbr, pos, rec, next>>

\* assignment: p stops owning its vertex and owns q's; its own flags and value stay
Assign(p, q) ==
  /\ vOf[p] # Null
  /\ vOf[q] # Null
  /\ Collect([vOf EXCEPT ![p] = vOf[q]], nOf, nbr, pos, rec)
  /\ UNCHANGED <<mobile, smooth, share, next>>

Destroy(p) ==
  /\ vOf[p] # Null
  /\ Collect([vOf EXCEPT ![p] = Null], nOf, nbr, pos, rec)
  /\ UNCHANGED <<mobile, smooth, share, next>>

SetShare(p, s) == vOf[p] # Null /\ share' = [share EXCEPT ![p] = s]
                  /\ UNCHANGED <<vOf, mobile, smooth, nOf, nbr, pos, rec, next>>
SetSmooth(p, b) == vOf[p] # Null /\ smooth' = [smooth EXCEPT ![p] = b]
                   /\ UNCHANGED <<vOf, mobile, share, nOf, nbr, pos, rec, next>>
PushRecord(p, r) == vOf[p] # Null /\ rec' = [rec EXCEPT ![vOf[p]] = Append(@, r)]
                    /\ UNCHANGED <<vOf, mobile, smooth, share, nOf, nbr, pos, next>>

Connect(p, q) ==
  /\ vOf[p] # Null /\ vOf[q] # Null
  /\ nbr' = IF vOf[p] = vOf[q] THEN nbr ELSE nbr \cup {{vOf[p], vOf[q]}}
  /\ UNCHANGED <<vOf, mobile, smooth, share, nOf, pos, rec, next>>

\* x is the mass-weighted average (rounded to the scale at which positions are recorded)
AvgOk(x, m1, x1, m2, x2) ==
  LET d == (m1 + m2)*x - (m1*x1 + m2*x2) IN d <= m1 + m2 /\ -d <= m1 + m2

Eat(p, q, x) ==
  LET a == vOf[p]  b == vOf[q] IN
  /\ a # Null /\ b # Null
  /\ IF a = b THEN x = pos[a] /\ UNCHANGED vars
     ELSE /\ AvgOk(x, Mass(a), pos[a], Mass(b), pos[b])
          /\ Collect([t \in TP |-> IF vOf[t] = b THEN a ELSE vOf[t]], nOf,
                     nbr \cup {{a, w} : w \in Neighbors(b) \ {a}},
                     [pos EXCEPT ![a] = x], [rec EXCEPT ![a] = @ \o rec[b]])
          /\ UNCHANGED <<mobile, smooth, share, next>>

NNew(n, p) == nOf[n] = -1 /\ vOf[p] # Null /\ nOf' = [nOf EXCEPT ![n] = vOf[p]]
              /\ UNCHANGED <<vOf, mobile, smooth, share, nbr, pos, rec, next>>
NCopy(n, m) == nOf[n] = -1 /\ nOf[m] # -1 /\ nOf' = [nOf EXCEPT ![n] = nOf[m]]
              /\ UNCHANGED <<vOf, mobile, smooth, share, nbr, pos, rec, next>>
NAssign(n, m) == n # m /\ nOf[n] # -1 /\ nOf[m] # -1 /\ nOf' = [nOf EXCEPT ![n] = nOf[m]]
              /\ UNCHANGED <<vOf, mobile, smooth, share, nbr, pos, rec, next>>
NNull(n) == nOf[n] # -1 /\ nOf' = [nOf EXCEPT ![n] = Null]
              /\ UNCHANGED <<vOf, mobile, smooth, share, nbr, pos, rec, next>>
NDestroy(n) == nOf[n] # -1 /\ nOf' = [nOf EXCEPT ![n] = -1]
              /\ UNCHANGED <<vOf, mobile, smooth, share, nbr, pos, rec, next>>

\* ---- properties
TypeOK ==
  /\ \A p \in TP : vOf[p] \in 0..(next - 1)
  /\ DOMAIN pos = Live /\ DOMAIN rec = Live
\* an observer never dangles: it is null or points to a vertex with at least one owner
NoDangling == \A n \in NP : nOf[n] > 0 => nOf[n] \in Live
\* edges join two distinct live vertices
EdgesLive == \A e \in nbr : Cardinality(e) = 2 /\ e \subseteq Live
OwnedIffAlive == \A v \in Live : Mass(v) >= 1
=============================================================================
