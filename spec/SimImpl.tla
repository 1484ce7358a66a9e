------------------------------ MODULE SimImpl ------------------------------
(* How the solver keeps the state: besides the values in the cells there are values on the faces of the cells, on the
   fine sides of hanging-node faces, and boundary values cached at the start. A time step starts from all of them. Each
   operation says what it leaves where. Refines SimState: the state that a step arrives at is a function of the version. *)
EXTENDS SimState, TLC
CONSTANTS
  Names, MaxOps, MaxGens,
  ReadPrepares,   \* reading a state computes the faces and caches, as initializing does
  RepProlongs     \* the surface representation metric restores the fine sides as well
VARIABLES
  cells, faces, fine,  \* what the values stand for: <<"v", gen, ver>>, <<"junk">>
  cache,               \* does the boundary cache belong to this mesh
  nops
ivars == <<svars, cells, faces, fine, cache, nops>>
Junk == <<"junk">>
Tick == nops < MaxOps /\ nops' = nops + 1
V(g, v) == <<"v", g, v>>
\* a step of the implementation: the new state is that of the version iff everything it starts from is
Good == cells = V(gen, ver) /\ faces = cells /\ fine = cells /\ cache
Agree(a, b) == a = b
Same(a, b) == a = b
\* what is seen of the state: the values in the cells
DoInit(s) == /\ Tick /\ LET v == AfterInit(ver, s) IN
                /\ Initialize(s, V(gen, v), Agree)
                /\ cells' = V(gen, v) /\ faces' = V(gen, v) /\ fine' = V(gen, v) /\ cache' = TRUE
DoStep(k) == LET v == AfterSteps(ver, k, 1, fix, av) IN
  /\ Tick
  /\ LET c == IF Good THEN V(gen, v) ELSE Junk IN
     March(k, 1, V(gen, v), Agree) /\ cells' = c /\ faces' = c /\ fine' = c
  /\ UNCHANGED cache
DoRemesh == Tick /\ lays < MaxGens /\ Remesh(1 + (lays % 2)) /\ cells' = Junk /\ faces' = Junk /\ fine' = Junk /\ cache' = FALSE
DoWrite(f) == Tick /\ Write(f, cur, Same) /\ UNCHANGED <<cells, faces, fine, cache>>
DoRead(f, anew) ==
  /\ Tick /\ Has(files, f) /\ Read(f, anew, files[f].obs, Same)
  /\ cells' = files[f].obs
  \* the jacobian leaves surface normals on the faces
  /\ IF ReadPrepares THEN faces' = cells' /\ fine' = cells' /\ cache' = TRUE
     ELSE faces' = Junk /\ fine' = Junk /\ cache' = FALSE
DoReadState(f) ==
  /\ Tick /\ Has(files, f) /\ ReadState(f, files[f].obs, Same)
  /\ cells' = files[f].obs
  /\ IF ReadPrepares THEN faces' = cells' /\ fine' = cells' /\ cache' = TRUE
     ELSE UNCHANGED <<faces, fine, cache>>
DoReport == Tick /\ Look(cur, Same) /\ UNCHANGED <<cells, faces, fine, cache>>
\* reports that write to the storage of the state and of the faces, and restore them
DoRep == Tick /\ Look(cur, Same) /\ faces' = cells /\ fine' = (IF RepProlongs THEN cells ELSE Junk) /\ UNCHANGED <<cells, cache>>
DoFix == Tick /\ SetFix(~fix, cur, Same) /\ UNCHANGED <<cells, faces, fine, cache>>
DoOff == Tick /\ av /\ AvOff(cur, Same) /\ UNCHANGED <<cells, faces, fine, cache>>
Init == Setup /\ cells = Junk /\ faces = Junk /\ fine = Junk /\ cache = FALSE /\ nops = 0
Next == \/ \E s \in 1..2 : DoInit(s)
        \/ \E k \in {"step", "stepav"} : DoStep(k)
        \/ DoRemesh
        \/ \E f \in Names : DoWrite(f)
        \/ \E f \in Names : DoReadState(f)
        \/ \E f \in Names : \E b \in BOOLEAN : DoRead(f, b)
        \/ DoReport \/ DoRep \/ DoFix \/ DoOff
Spec == Init /\ [][Next]_ivars
\* whenever there is a state, it is that of its version, and the next step starts from nothing else
Consistent == ver # <<>> => (cells = V(gen, ver) /\ cur = cells /\ Good)
=============================================================================
