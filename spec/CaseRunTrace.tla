---------------------------- MODULE CaseRunTrace ----------------------------
(* Recorded runs: what was said (lines of the output, which the user sees on the terminal too) and the files present
   after each iteration and at the end. Silent phases of the specification happen between recorded events. *)
EXTENDS CaseRun, TraceLib
VARIABLE l
Mark == TLCSet(1, l)
Consume(e) == l' = l + 1 /\ Mark
Set(s) == Range(s)
\* files and links of the working directory
Same(e) ==
  /\ Chk("mesh files", Set(e.mesh) = mesh, <<e, mesh>>)
  /\ Chk("state files", Set(e.state) = state, <<e, state>>)
  /\ Chk("visualization files", Set(e.vis) = vis, <<e, vis>>)
  /\ Chk("latest mesh", e.lmesh = lmesh, <<e, lmesh>>)
  /\ Chk("latest state", e.lstate = lstate, <<e, lstate>>)
  /\ Chk("latest visualization", e.new = new, <<e, new>>)
  /\ Chk("previous visualization", e.old = old, <<e, old>>)
Silent ==
  /\ l <= Len(Trace)
  /\ UNCHANGED l
  /\ \/ pc \in Phases /\ Said(pc) = <<>> /\ Phase
     \/ Stop
     \/ pc = "commands" /\ todo # <<>> /\ ~Talks(Head(todo)) /\ Command
Said1(e) ==
  CASE e.ev = "header" -> pc = "print_init" /\ Said(pc) = <<"H">> /\ Phase
    [] e.ev = "report" -> pc = "print_iter" /\ Said(pc) = <<"R">> /\ Phase /\ Chk("report", e.it = it /\ e.half = it /\ e.word = it, <<e, it>>)
    [] e.ev = "written" -> pc = "write_iter" /\ Said(pc) = <<"W">> /\ Phase
    [] e.ev = "drawn" -> pc = "vis_iter" /\ Said(pc) = <<"V">> /\ Phase
    [] e.ev = "complete" -> pc = "print_final" /\ Said(pc) = <<"F">> /\ Phase
    [] e.ev = "override" -> pc = e.what /\ Said(pc) = <<"X", pc>> /\ Phase
    [] e.ev = "say" -> pc = "commands" /\ todo # <<>> /\ Head(todo) = <<"say", e.what>> /\ Command
    [] e.ev = "error" -> pc = "commands" /\ todo # <<>> /\ Head(todo)[1] = "error" /\ Command
    [] e.ev = "before" -> Begin /\ Chk("iteration before", e.it = it, <<e, it>>)
    [] e.ev = "update" -> Update(e.cmds)
    [] e.ev = "after" -> Iterated /\ Chk("iteration after", e.it = it /\ e.flow = it, <<e, it>>) /\ Same(e)
    [] e.ev = "end" -> pc = "end" /\ Chk("exit", e.rc = 0, e) /\ Same(e) /\ UNCHANGED cvars
    [] e.ev = "reset" -> Setup(Set(e.ovr), e.draws = 1, e.f, Set(e.mesh), Set(e.state), e.lmesh, e.lstate)
TInit == /\ ovr = {} /\ draws = FALSE /\ f = [print |-> 1] /\ pc = "end" /\ it = 0 /\ upd = 0 /\ todo = <<>> /\ mesh = {} /\ state = {}
         /\ vis = {} /\ lmesh = -1 /\ lstate = -1 /\ new = -1 /\ old = -1 /\ l = 1 /\ TLCSet(1, 0)
TNext == Silent \/ (l <= Len(Trace) /\ Said1(Trace[l]) /\ Consume(Trace[l]))
TSpec == TInit /\ [][TNext]_<<cvars, l>>
Consumed == TLCGet(1) = Len(Trace) \/ (PrintT(<<"REJECTED", TLCGet(1) + 1, Len(Trace)>>) /\ FALSE)
=============================================================================
