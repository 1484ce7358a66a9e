------------------------------ MODULE CaseRun ------------------------------
(* The `run` macro of a case: initial output, then updates until the termination condition holds, each followed by a
   status report, mesh/state output, visualization and run-time commands as its inputs call for, then final output.

   A phase either happens silently (only files change) or says something; `Said(ph)` is what it says:
   <<>> nothing, <<"H">> header, <<"R">> report, <<"W">> data written, <<"V">> visualized, <<"F">> completion message,
   <<"X", ph>> whatever the user made of an overridden macro. *)
EXTENDS Integers, Sequences
VARIABLES ovr,           \* set of macros overridden by the user (to say something else and do nothing)
          draws,         \* whether visualization produces any files
          f,             \* settings which run-time commands may change: frequencies and termination thresholds
          pc, it, upd,   \* phase, iteration, number of updates made
          todo,          \* run-time commands of this update which have not been executed
          mesh, state, vis,  \* iterations for which there are mesh, state and visualization files
          lmesh, lstate, new, old  \* iterations which the links/copies of the latest output refer to; -1: none
cvars == <<ovr, draws, f, pc, it, upd, todo, mesh, state, vis, lmesh, lstate, new, old>>
files == <<mesh, state, vis, lmesh, lstate, new, old>>

Done == it >= f.stopit \/ upd >= f.stopupd
Phases == {"write_init", "vis_init", "print_init", "print_iter", "write_iter", "vis_iter", "print_final", "write_final", "vis_final"}
Said(ph) ==
  IF ph \in ovr THEN <<"X", ph>> ELSE
  CASE ph = "print_init" -> <<"H">>
    [] ph = "print_iter" -> IF it # 1 THEN <<"R">> ELSE <<>>
    [] ph = "write_iter" -> IF it % f.write = 0 THEN <<"W">> ELSE <<>>
    [] ph = "vis_iter" -> IF it % f.vis = 0 THEN <<"V">> ELSE <<>>
    [] ph = "print_final" -> <<"F">>
    [] OTHER -> <<>>
WriteMesh == mesh' = mesh \cup {it} /\ lmesh' = it
WriteState == state' = state \cup {it} /\ lstate' = it
Draw == IF draws
        THEN /\ vis' = vis \cup {it}
             /\ new' = it
             /\ old' \in IF it = new THEN {old, new} ELSE {new}  \* repeating an iteration may or may not count
        ELSE UNCHANGED <<vis, new, old>>
Effect(ph) ==
  IF ph \in ovr THEN UNCHANGED files ELSE
  CASE ph = "write_init" -> WriteMesh /\ UNCHANGED <<state, lstate, vis, new, old>>
    [] ph \in {"vis_init", "vis_final"} \/ (ph = "vis_iter" /\ Said(ph) # <<>>) -> Draw /\ UNCHANGED <<mesh, lmesh, state, lstate>>
    [] ph = "write_final" \/ (ph = "write_iter" /\ Said(ph) # <<>>) -> WriteMesh /\ WriteState /\ UNCHANGED <<vis, new, old>>
    [] OTHER -> UNCHANGED files
After(ph) ==
  CASE ph = "write_init" -> "vis_init"
    [] ph = "vis_init" -> "print_init"
    [] ph = "print_init" -> "test"
    [] ph = "print_iter" -> "write_iter"
    [] ph = "write_iter" -> "vis_iter"
    [] ph = "vis_iter" -> "commands"
    [] ph = "print_final" -> "write_final"
    [] ph = "write_final" -> "vis_final"
    [] ph = "vis_final" -> "end"
Phase == pc \in Phases /\ Effect(pc) /\ pc' = After(pc) /\ UNCHANGED <<ovr, draws, f, it, upd, todo>>
Stop == pc = "test" /\ Done /\ pc' = "print_final" /\ UNCHANGED <<ovr, draws, f, it, upd, todo, files>>
\* the first update makes one iteration (for the initial residual), the others proceed to the next multiple of `print`
Steps == IF it = 0 THEN 1 ELSE f.print - (it % f.print)
Begin == pc = "test" /\ ~Done /\ pc' = "update" /\ UNCHANGED <<ovr, draws, f, it, upd, todo, files>>
Update(cmds) ==
  /\ pc = "update"
  /\ pc' = "print_iter"
  /\ it' = it + Steps
  /\ upd' = upd + 1
  /\ todo' = cmds
  /\ UNCHANGED <<ovr, draws, f, files>>
\* run-time commands: <<"say", x>>, <<"error", 0>>, or a setting and its new value
Talks(c) == c[1] \in {"say", "error"}
Command ==
  /\ pc = "commands"
  /\ todo # <<>>
  /\ todo' = Tail(todo)
  /\ f' = IF Talks(Head(todo)) THEN f ELSE [f EXCEPT ![Head(todo)[1]] = Head(todo)[2]]
  /\ UNCHANGED <<ovr, draws, pc, it, upd, files>>
Iterated == pc = "commands" /\ todo = <<>> /\ pc' = "test" /\ UNCHANGED <<ovr, draws, f, it, upd, todo, files>>
Setup(o, d, f0, m0, s0, lm, ls) ==
  /\ ovr' = o /\ draws' = d /\ f' = f0 /\ pc' = "write_init" /\ it' = 0 /\ upd' = 0 /\ todo' = <<>>
  /\ mesh' = m0 /\ state' = s0 /\ vis' = {} /\ lmesh' = lm /\ lstate' = ls /\ new' = -1 /\ old' = -1
=============================================================================
