------------------------------ MODULE SimAxes ------------------------------
(* P21. The laws of motion do not depend on the axes in which they are written down. A problem is posed in its own axes; `axes` says
   in which axes the solver sees it: dimension i of the problem is dimension axes.ax[i] of the solver, reversed if axes.rev[i] = 1.
   Observations are translated back to the axes of the problem. In SimState they are functions of mesh and version: not of `axes`.
   The meshing operations, boundary conditions and flow fields are translated in the same way, so the same holds for the mesh. *)
EXTENDS SimState
VARIABLES axes, next
avars == <<svars, axes, next>>
IsAxes(a) == /\ DOMAIN a.ax = DOMAIN a.rev /\ {a.ax[i] : i \in DOMAIN a.ax} = 0..(Len(a.ax) - 1)
             /\ \A i \in DOMAIN a.rev : a.rev[i] \in {0, 1}
Plain == <<>>
\* the group of these changes: composition and inverse are changes again, so nothing distinguishes the axes of the problem
At(a, i) == a.ax[i + 1]
After(a, b) == [ax |-> [i \in DOMAIN a.ax |-> b.ax[a.ax[i] + 1]], rev |-> [i \in DOMAIN a.ax |-> (a.rev[i] + b.rev[a.ax[i] + 1]) % 2]]
Turn(a) == IsAxes(a) /\ next' = a /\ UNCHANGED <<svars, axes>>
TakeAxes == axes' = next /\ UNCHANGED next
KeepAxes == UNCHANGED <<axes, next>>
=============================================================================
