---------------------------- MODULE SimAxesTrace ----------------------------
EXTENDS SimAxes, TraceLib
VARIABLE l
Tol == 20  \* units of 1e-7 of the free stream
CloseV(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Abs(x[i] - y[i]) <= Tol
SameO(p, q) == Chk("unchanged", p = q, <<Len(p), Len(q)>>)
Differ(p, q, k) == {<<i, p[i][k], q[i][k]>> : i \in {j \in DOMAIN p : ~CloseV(p[j][k], q[j][k])}}
\* observation: sequence of <<cell, bits, values, geometry>> in the axes of the problem
AgreeO(p, q) ==
  /\ Chk("cells", Len(p) = Len(q) /\ \A i \in DOMAIN p : p[i][1] = q[i][1], <<Len(p), Len(q), axes>>)
  /\ Chk("geometry", Differ(p, q, 4) = {}, <<axes, Differ(p, q, 4)>>)
  /\ Chk("values", Differ(p, q, 3) = {}, <<axes, Differ(p, q, 3)>>)
Step(e) ==
  CASE e.ev = "reset" -> Reset(e.g) /\ axes' = Plain /\ next' = Plain
    [] e.ev = "turn" -> Turn([ax |-> e.ax, rev |-> e.rev])
    [] e.ev = "remesh" -> Remesh(e.g) /\ TakeAxes
    [] e.ev = "init" -> Initialize(e.s, e.o, AgreeO) /\ KeepAxes
    [] e.ev \in StepKinds -> March(e.ev, e.n, e.o, AgreeO) /\ KeepAxes
    [] e.ev = "exploded" -> Explode(e.kind, e.n) /\ KeepAxes
    [] e.ev = "write" -> Write(e.f, e.o, SameO) /\ KeepAxes
    [] e.ev = "read" -> Read(e.f, e.anew = 1, e.o, AgreeO) /\ KeepAxes
    [] e.ev = "fix" -> SetFix(e.on = 1, e.o, SameO) /\ KeepAxes
    [] e.ev = "avoff" -> AvOff(e.o, SameO) /\ KeepAxes
TInit == Setup /\ axes = Plain /\ next = Plain /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_<<avars, l>>
=============================================================================
