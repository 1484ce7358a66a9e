--------------------------- MODULE SimStateTrace ---------------------------
EXTENDS SimState, TraceLib
VARIABLE l
Tol == 5  \* units of 1e-7 of the free stream
\* observation: sequence of <<cell, bits, values, geometry>>
SameO(a, b) == Chk("unchanged", a = b, <<Len(a), Len(b), {i \in DOMAIN a : i \in DOMAIN b /\ a[i] # b[i]}>>)
CloseV(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Abs(x[i] - y[i]) <= Tol
Geo(a, b) == Chk("geometry", \A i \in DOMAIN a : CloseV(a[i][4], b[i][4]), {<<i, a[i][4], b[i][4]>> : i \in {j \in DOMAIN a : ~CloseV(a[j][4], b[j][4])}})
\* the bits of the state in the cells are those that were saved, the geometry is calculated again
SavedO(a, b) ==
  /\ Chk("saved", Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i][1] = b[i][1] /\ a[i][2] = b[i][2], <<Len(a), Len(b), {i \in DOMAIN a : i \in DOMAIN b /\ a[i] # b[i]}>>)
  /\ Geo(a, b)
AgreeO(a, b) ==
  /\ Chk("cells", Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i][1] = b[i][1], <<Len(a), Len(b)>>)
  /\ Geo(a, b)
  /\ Chk("values", \A i \in DOMAIN a : a[i][2] = b[i][2] \/ CloseV(a[i][3], b[i][3]),
         {<<i, a[i][3], b[i][3]>> : i \in {j \in DOMAIN a : ~CloseV(a[j][3], b[j][3])}})
Step(e) ==
  CASE e.ev = "reset" -> Reset(e.g)
    [] e.ev = "remesh" -> Remesh(e.g)
    [] e.ev = "init" -> Initialize(e.s, e.o, AgreeO)
    [] e.ev \in StepKinds -> March(e.ev, e.n, e.o, AgreeO)
    [] e.ev = "exploded" -> Explode(e.kind, e.n)
    [] e.ev = "write" -> Write(e.f, e.o, SameO)
    [] e.ev = "read" -> Read(e.f, e.anew = 1, e.o, SavedO)
    [] e.ev = "readstate" -> ReadState(e.f, e.o, SavedO)
    [] e.ev = "look" -> Look(e.o, SameO)
    [] e.ev = "fix" -> SetFix(e.on = 1, e.o, SameO)
    [] e.ev = "avoff" -> AvOff(e.o, SameO)
    [] e.ev = "threads" -> Threads(e.n, e.o, SameO)
TInit == Setup /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_<<svars, l>>
=============================================================================
