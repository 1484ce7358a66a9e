---------------------------- MODULE BalanceTrace ----------------------------
EXTENDS Balance, TraceLib
VARIABLE l
Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Tol == 30      \* in units of 1e-9
Big == 1500000000
AbsB(x) == IF x < 0 THEN -x ELSE x
\* e.tot: mass and energy per volume; e.res: sums of their rates of change; e.dev: largest deviation from the uniform flow and from rest.
\* Rounding is relative to the values in the field, so nothing is demanded of fields that explode
Sane(e) == e.dev[1] < Big
Obs(e) ==
  Sane(e) =>
  /\ (SameTotal' /\ tot' # <<>>) => Chk("contents", \A i \in 1..2 : AbsB(e.tot[i] - tot'[i]) <= Tol, <<tot', e>>)
  /\ ZeroSum' => Chk("rates add up to zero", \A i \in 1..2 : AbsB(e.res[i]) <= Tol, e)
  /\ (Undisturbed(flow') /\ flow' = "flow") => Chk("uniform", e.dev[1] <= Tol, e)
  /\ (Undisturbed(flow') /\ flow' = "rest") => Chk("at rest", e.dev[2] <= Tol, e)
Finite(e) == "finite" \notin DOMAIN e
Step(e) ==
  IF e.ev = "reset" THEN Begin([closed |-> e.closed, local |-> e.local, exact |-> e.exact])
  ELSE IF ~Finite(e) \/ e.ev = "exploded" THEN (Undisturbed(flow) => Chk("undisturbed flows stay finite", FALSE, e)) /\ Other
  ELSE /\ CASE e.ev = "init" -> Start(e.s, e.tot)
            [] e.ev \in {"step", "stepav", "stepavc", "stepelw", "steppde", "stepadm"} -> March
            [] e.ev = "write" -> Save(e.f, Put)
            [] e.ev = "read" -> Restart(e.f)
            [] e.ev \in {"avoff", "fix", "threads"} -> Other
       /\ Obs(e)
TInit == dom = <<>> /\ flow = "none" /\ tot = <<>> /\ files = <<>> /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_<<bvars, l>>
=============================================================================
