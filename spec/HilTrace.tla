------------------------------ MODULE HilTrace ------------------------------
(* P12, P13, P14: recorded programs of the case-input language have the effects that the machine of Hil.tla computes. *)
EXTENDS Hil, HilStd, Json, IOUtils
VARIABLES l, m, w
vars == <<l, m, w>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceAccepted ==
  \/ TLCGet("stats").diameter - 1 = Len(Trace)
  \/ /\ PrintT(<<"REJECTED", TLCGet("stats").diameter, Len(Trace)>>)
     /\ FALSE
Chk(name, c, ctx) == IF c THEN TRUE ELSE PrintT(<<"WHY", name, ToString(ctx)>>) /\ FALSE
\* a recorded value is the expected one
Same(o, v) ==
  CASE v.t = "int" -> o.t = "int" /\ o.i = v.i
    [] v.t = "real" -> o.t = "real" /\ o.n = v.n /\ o.k = v.k /\ "negative" \notin DOMAIN o
    [] v.t = "apx" -> o.t = "real" /\ AbsI(o.u - v.u) <= 1
    [] v.t = "str" -> o.t = "str" /\ (IF v.s = Message THEN o.s # "" ELSE o.s = v.s)
    [] v.t = "none" -> o.t = "none"
\* the value which was passed in
Of(o) == CASE o.t = "int" -> IntV(o.i) [] o.t = "real" -> [t |-> "real", n |-> o.n, k |-> o.k] [] o.t = "str" -> Str(o.s)
\* all variables that are watched are as expected
Watched(e, n) ==
  /\ \A i \in DOMAIN e.vars : LET q == e.vars[i] IN
       /\ Chk("variable exists", q.x \in DOMAIN n.ns[q.s], q)
       /\ Chk("value of a variable", Same(q.v, n.ns[q.s][q.x]), <<q, n.ns[q.s][q.x]>>)
       /\ Chk("value as another type", ~q.odd, q)
Complete(e, n) == Cardinality({q \in (DOMAIN n.ns) \X w : q[2] \in DOMAIN n.ns[q[1]]}) = Len(e.vars)
Dead == [Machine EXCEPT !.st = "unk"]
Typed(T, v) == CASE T = "int" -> (IF v.t = "int" THEN v ELSE None)
                 [] T = "real" -> (IF v.t = "int" THEN AsReal(v) ELSE IF v.t \in {"real", "apx"} THEN v ELSE None)
                 [] T = "str" -> (IF v.t = "str" THEN v ELSE None)
Finish(e, n, st) ==
  IF n.st = "unk" THEN m' = Dead
  ELSE /\ Chk("outcome", e.st = st, <<e.st, st>>)
       /\ Watched(e, n)
       /\ Chk("no variable is missing", Complete(e, n), <<n.ns, e.vars>>)
       /\ m' = [n EXCEPT !.st = "ok", !.txt = "", !.stk = <<>>, !.out = "", !.mode = "halt"]
DoExec(e, prog) ==
  \A r \in {Run(Load(m, e.s, prog))} :
    /\ IF r.st = "unk" \/ r.mode # "halt" THEN PrintT(<<"UNK", ToString(e.prog)>>) ELSE TRUE
    /\ (r.st # "unk") => Chk("output", r.out = e.out, <<r.out, e.out>>)
    /\ (r.st # "unk") => Chk("reason of the exception", r.st # "hil" \/ e.undef = r.why, <<e.undef, r.why>>)
    /\ Finish(e, IF r.mode # "halt" THEN Dead ELSE r, r.st)
\* a program that runs in an interpreter of its own whose variables enclose it, and is discarded
DoEval(e) ==
  \A r \in {Run(Load(NewInterp(m, <<e.s>>), Len(m.ns) + 1, e.prog))} :
    IF r.st = "unk" \/ r.mode # "halt" THEN PrintT(<<"UNK", ToString(e.prog)>>) /\ m' = m
    ELSE /\ Chk("output", r.out = e.out, <<r.out, e.out>>)
         /\ Chk("outcome", e.st = r.st, <<e.st, r.st>>)
         /\ Chk("reason of the exception", r.st # "hil" \/ e.undef = r.why, <<e.undef, r.why>>)
         /\ Watched(e, r)
         /\ Chk("no variable is missing", Complete(e, r), <<r.ns, e.vars>>)
         /\ m' = [m EXCEPT !.cnt = r.cnt, !.inp = r.inp]
DoLookup(e) ==
  IF ~Exists(m, e.s, e.x) THEN Chk("lookup of an undefined variable", e.v.t = "none", e.v) /\ Finish(e, m, "ok")
  ELSE LET sp == Where(m, e.s, e.x) IN
       IF e.x \in DOMAIN m.heis[sp]
       THEN LET r == Typed(e.T, IntV(m.cnt)) IN
            Chk("computed value", Same(e.v, r), <<e.v, r>>) /\ Finish(e, [m EXCEPT !.cnt = IF r = None THEN @ ELSE @ + 1], "ok")
       ELSE LET r == Typed(e.T, m.ns[sp][e.x]) IN Chk("looked up value", Same(e.v, r), <<e.v, r>>) /\ Finish(e, m, "ok")
Step1(e) ==
  IF e.ev = "reset" THEN m' = Machine
  ELSE IF m.st = "unk" THEN m' = m
  ELSE CASE e.ev = "interp" -> (LET n == NewInterp(m, e.ups) IN Watched(e, n) /\ m' = n)
         [] e.ev = "space" -> (LET n == NewSpace(m, e.ups) IN Watched(e, n) /\ m' = n)
         [] e.ev = "watch" -> m' = m
         [] e.ev = "file" -> m' = [m EXCEPT !.files = (e.x :> e.text) @@ @]
         [] e.ev = "input" -> m' = [m EXCEPT !.inp = e.lines]
         [] e.ev = "exec" -> DoExec(e, e.prog)
         [] e.ev = "builtin" -> DoExec(e, Standard)
         [] e.ev = "eval" -> DoEval(e)
         [] e.ev = "tick" -> (IF Own(m, e.s, e.x) THEN Finish(e, m, "cpp") ELSE Finish(e, [m EXCEPT !.heis[e.s] = (e.x :> "tick") @@ @], "ok"))
         [] e.ev = "assign" -> (LET n == Assign(m, e.s, e.x, Of(e.v)) IN Finish(e, n, n.st))
         [] e.ev = "default" -> (IF Exists(m, e.s, e.x) THEN Finish(e, m, "ok") ELSE LET n == Assign(m, e.s, e.x, Of(e.v)) IN Finish(e, n, n.st))
         [] e.ev = "lookup" -> DoLookup(e)
         [] e.ev = "exists" -> (Chk("existence", e.own = Own(m, e.s, e.x) /\ e.rec = Exists(m, e.s, e.x), <<e, m.ns>>) /\ Finish(e, m, "ok"))
TInit == l = 1 /\ m = Machine /\ w = {}
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step1(Trace[l])
         /\ w' = IF Trace[l].ev = "reset" THEN {} ELSE IF Trace[l].ev = "watch" THEN {Trace[l].names[i] : i \in DOMAIN Trace[l].names} ELSE w
TSpec == TInit /\ [][TNext]_vars
=============================================================================
