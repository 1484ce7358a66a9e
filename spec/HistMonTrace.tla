---------------------------- MODULE HistMonTrace ----------------------------
EXTENDS HistMon, TraceLib
VARIABLE l
Huge == 2000000001
Obs(e) == \A j \in DOMAIN e.min :
  /\ Chk("min", e.min[j] = (IF kept = <<>> THEN -Huge ELSE MinOf(j)), <<e, kept>>)
  /\ Chk("max", e.max[j] = (IF kept = <<>> THEN Huge ELSE MaxOf(j)), <<e, kept>>)
Step(e) ==
  CASE e.ev = "reset" -> Setup(e.p, e.q, e.cap, e.rr, e.exact = 1)
    [] e.ev = "sample" -> Sample(e.it, e.v)
ObsHere == l > 1 => Obs(Trace[l - 1])
TInit == p = 1 /\ q = 2 /\ cap = 1 /\ rr = 2000 /\ exact = TRUE /\ kept = <<>> /\ newest = -1 /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ ObsHere'
TSpec == TInit /\ [][TNext]_<<hvars, l>>
=============================================================================
