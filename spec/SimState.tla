------------------------------ MODULE SimState ------------------------------
(* The flow state of a simulation as a user sees it: which operations determine it, what saving, restarting and
   reporting do to it. The state is identified by its version: the operations which led to it since the mesh was made.
   The specification says that what is observed of the state (an abstract value of each cell) is a function of the mesh
   and the version, so a restarted simulation continues as if it had never been interrupted, and reports do not disturb it. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  gen,    \* which mesh the solver has: an id of the sequence of operations that made it
  lay,    \* where this mesh comes from: each mesh that is made has its own layout in files, reading it preserves it
  lays,   \* number of layouts so far
  ver,    \* sequence of operations that led to the flow state of the solver. Empty: it has none yet
  av,     \* is artificial viscosity turned on
  fix,    \* is the thermodynamic stabilization turned on
  threads,
  cur,    \* the flow state that was last observed
  files,  \* name -> [gen, lay, ver, obs], what was saved
  known   \* <<gen, ver>> -> observation
svars == <<gen, lay, lays, ver, av, fix, threads, cur, files, known>>

None == <<>>
StepKinds == {"step", "stepav", "stepavc", "stepelw", "steppde", "stepadm"}
Has(f, x) == x \in DOMAIN f
Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]

\* what is left from the operations before an initialization: the artificial viscosity coefficients
AvOps(v) == SelectSeq(v, LAMBDA x : x[1] \in StepKinds \ {"step"})
AfterInit(v, s) == IF AvOps(v) = <<>> THEN <<(<<"init", s>>)>> ELSE Append(v, <<"init", s>>)
RECURSIVE Rep(_, _, _)
Rep(v, x, n) == IF n = 0 THEN v ELSE Rep(Append(v, x), x, n - 1)
AfterSteps(v, kind, n, fx, on) == Rep(v, <<kind, on \/ kind # "step", fx>>, n)

Setup == gen = 1 /\ lay = 1 /\ lays = 1 /\ ver = <<>> /\ av = FALSE /\ fix = FALSE /\ threads = 0 /\ cur = None /\ files = <<>> /\ known = <<>>
Reset(g) == gen' = g /\ lay' = 1 /\ lays' = 1 /\ ver' = <<>> /\ av' = FALSE /\ fix' = FALSE /\ threads' = threads /\ cur' = None /\ files' = <<>> /\ known' = <<>>

\* the observation o belongs to the version v of mesh g. Agree(a, b) says that two observations are those of the same state,
\* up to rounding
Arrive(g, v, o, Agree(_, _)) ==
  /\ Has(known, <<g, v>>) => Agree(known[<<g, v>>], o)
  /\ known' = IF Has(known, <<g, v>>) THEN known ELSE Put(known, <<g, v>>, o)
  /\ gen' = g /\ ver' = v /\ cur' = o

Initialize(s, o, Agree(_, _)) ==
  /\ Arrive(gen, AfterInit(ver, s), o, Agree)
  /\ UNCHANGED <<lay, lays, av, fix, threads, files>>
March(kind, n, o, Agree(_, _)) ==
  /\ ver # <<>> /\ kind \in StepKinds
  /\ Arrive(gen, AfterSteps(ver, kind, n, fix, av), o, Agree)
  /\ av' = (av \/ kind # "step")
  /\ UNCHANGED <<lay, lays, fix, threads, files>>
\* the solution became infinite within these steps, which ends the process. It does so whenever the history is repeated
Explode(kind, n) ==
  /\ ver # <<>> /\ kind \in StepKinds
  /\ ~Has(known, <<gen, AfterSteps(ver, kind, n, fix, av)>>)
  /\ UNCHANGED svars
\* another mesh, in a new solver
Remesh(g) ==
  /\ lays' = lays + 1 /\ lay' = lays + 1 /\ gen' = g /\ ver' = <<>> /\ cur' = None /\ av' = FALSE /\ fix' = FALSE
  /\ UNCHANGED <<threads, files, known>>
Write(f, o, Same(_, _)) ==
  /\ ver # <<>> /\ Same(cur, o)
  /\ files' = Put(files, f, [gen |-> gen, lay |-> lay, ver |-> ver, obs |-> cur])
  /\ cur' = o
  /\ UNCHANGED <<gen, lay, lays, ver, av, fix, threads, known>>
\* read the mesh and the state, in a new solver or in the one which exists
Read(f, anew, o, Same(_, _)) ==
  /\ Has(files, f) /\ Same(files[f].obs, o)
  /\ gen' = files[f].gen /\ lay' = files[f].lay /\ ver' = files[f].ver /\ cur' = o
  /\ av' = (av /\ ~anew) /\ fix' = (fix /\ ~anew)
  /\ UNCHANGED <<lays, threads, files, known>>
\* read only the state, which has to be one of the mesh that the solver has
ReadState(f, o, Same(_, _)) ==
  /\ Has(files, f) /\ files[f].lay = lay /\ Same(files[f].obs, o)
  /\ ver' = files[f].ver /\ cur' = o
  /\ UNCHANGED <<gen, lay, lays, av, fix, threads, files, known>>
Look(o, Same(_, _)) ==
  /\ ver # <<>> /\ Same(cur, o) /\ cur' = o
  /\ UNCHANGED <<gen, lay, lays, ver, av, fix, threads, files, known>>
SetFix(b, o, Same(_, _)) ==
  /\ ver # <<>> /\ Same(cur, o) /\ cur' = o /\ fix' = b
  /\ UNCHANGED <<gen, lay, lays, ver, av, threads, files, known>>
AvOff(o, Same(_, _)) ==
  /\ ver # <<>> /\ Same(cur, o) /\ cur' = o /\ av' = FALSE
  /\ UNCHANGED <<gen, lay, lays, ver, fix, threads, files, known>>
Threads(n, o, Same(_, _)) ==
  /\ ver # <<>> /\ Same(cur, o) /\ cur' = o /\ threads' = n
  /\ UNCHANGED <<gen, lay, lays, ver, av, fix, files, known>>

\* ---- properties
\* what is saved does not change until the name is saved again, and is what was known of that version
FilesKnown == \A f \in DOMAIN files : Has(known, <<files[f].gen, files[f].ver>>)
CurKnown == ver # <<>> => Has(known, <<gen, ver>>)
OneMesh == lay <= lays /\ \A f \in DOMAIN files : files[f].lay <= lays /\ (files[f].lay = lay => files[f].gen = gen)
=============================================================================
