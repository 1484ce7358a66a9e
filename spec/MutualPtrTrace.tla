--------------------------- MODULE MutualPtrTrace ---------------------------
EXTENDS MutualPtr, TraceLib
VARIABLE l
\* observed per slot: [slot, mine, partner slot, datum reached, truth value, value() throws]
Obs(e) == \A i \in DOMAIN e.s :
  LET o == e.s[i]  x == o[1] IN
  /\ Chk("mine", o[2] = mine[x], <<e, mine>>)
  /\ Chk("partner", o[3] = partner[x], <<e, partner>>)
  /\ Chk("get", o[4] = IF partner[x] = 0 THEN 0 ELSE mine[partner[x]], <<e, partner>>)
  /\ Chk("bool", (o[5] = 1) = (partner[x] # 0) /\ (o[6] = 1) = (Live(x) /\ partner[x] = 0), <<e, partner>>)
Step(e) ==
  CASE e.ev = "reset" -> mine' = [x \in Slots |-> 0] /\ partner' = [x \in Slots |-> 0]
    [] e.ev = "construct" -> Construct(e.a, e.b)
    [] e.ev = "destroy" -> Destroy(e.a)
    [] e.ev = "pair" -> Pair(e.a, e.b)
    [] e.ev = "unpair" -> Unpair(e.a)
    [] e.ev = "mconstruct" -> MoveConstruct(e.a, e.b)
    [] e.ev = "massign" -> MoveAssign(e.a, e.b)
ObsHere == l > 1 => Obs(Trace[l - 1])
TInit == Init /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ ObsHere'
TSpec == TInit /\ [][TNext]_<<mvars, l>>
=============================================================================
