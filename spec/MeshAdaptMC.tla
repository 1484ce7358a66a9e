----------------------------- MODULE MeshAdaptMC -----------------------------
(* Exhaustive: every history of locking and of updates with every choice of requests (of at most MaxReq elements each) *)
EXTENDS MeshAdapt, TLC, Json
CONSTANTS ND, MaxL, MaxReq, MaxLeaves, Emit, Steps
VARIABLES h, last
MCInit == AInit(ND) /\ h = <<>> /\ last = [ref |-> {}, unref |-> {}, pre |-> {}, prelk |-> {}]
RECURSIVE SetToSeq(_)
SetToSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o SetToSeq(s \ {x})
Sub(S, k) == {{}} \cup {{x} : x \in S} \cup (IF k > 1 THEN {{q[1], q[2]} : q \in S \X S} ELSE {})
\* requests: at most MaxReq elements in total, or a whole group of siblings, or everything
Sibs(n) == IF n = Root THEN {n} ELSE Children(Parent(n)) \cap Leaves
Unrefs == {Sibs(n) : n \in Leaves} \cup {Leaves}
Requests ==
  LET ok == {n \in Leaves : n[1] < MaxL} IN
  {q \in Sub(ok, MaxReq) \X Sub(Leaves, MaxReq) : Cardinality(q[1]) + Cardinality(q[2]) \in 1..MaxReq}
  \cup {<<{n}, u>> : n \in ok, u \in Unrefs} \cup {<<{}, u>> : u \in Unrefs} \cup {<<{}, u \ {n}>> : u \in Unrefs, n \in Leaves}
  \cup {<<ok, {}>>}
Next ==
  /\ Len(h) < Steps
  /\ \/ \E q \in Requests : LET ref == q[1]  unref == q[2] IN
          /\ Update(ref, unref)
          /\ h' = Append(h, [op |-> "update", a |-> SetToSeq(ref), b |-> SetToSeq(unref)])
          /\ last' = [ref |-> ref, unref |-> unref, pre |-> R, prelk |-> lk]
     \/ \E s \in Sub(Leaves, 1) : /\ s # lk /\ Lock(s) /\ h' = Append(h, [op |-> "lock", a |-> SetToSeq(s), b |-> <<>>])
                                  /\ last' = [ref |-> {}, unref |-> {}, pre |-> R, prelk |-> lk]
MCSpec == MCInit /\ [][Next]_<<avars, h, last>>
View == <<avars, Len(h)>>
Scenario == Emit => PrintT(<<"SCN", ToJson(h')>>)
Small == Cardinality(Leaves) <= MaxLeaves
\* what a user relies on, for each step
Honored ==
  LET pre == LeavesOf(last.pre) IN
  \* a requested refinement happens; what was not requested to be unrefined, or was locked, is not lost to a coarser element
  /\ \A n \in last.ref \ last.unref : n \notin Leaves
  /\ \A n \in pre : (n \notin last.unref \/ n \in last.ref \/ n \in last.prelk) => n \in Leaves \/ n \in R
Stable == last.ref = {} /\ last.unref = {} => R = last.pre
\* with no requests nothing changes
Idle == Result({}, {}) = R /\ ~Changed({}, {})
=============================================================================
