------------------------------ MODULE HilVarMC ------------------------------
(* P12 on the specification: one variable name in several variable spaces which enclose each other, and every sequence of
   assignments, defaults and computed variables. Every transition of this system is a scenario for the real code. *)
EXTENDS Hil, Json
CONSTANTS Shape, Values, Gen
VARIABLES m, hist, st
vars == <<m, hist, st>>
\* the spaces that enclose each space
Ups == CASE Shape = "chain" -> << <<>>, <<1>>, <<2>> >>
         [] Shape = "fork" -> << <<>>, <<>>, <<1, 2>> >>
         [] Shape = "swapped" -> << <<>>, <<1>>, <<2, 1>> >>
         [] Shape = "diamond" -> << <<>>, <<1>>, <<1>>, <<2, 3>> >>
N == Len(Ups)
ValueOf(x) == CASE x = "1" -> IntV(1) [] x = "2" -> IntV(2) [] x = "0.5" -> Real(1, 1) [] x = "p" -> Str("p") [] x = "q" -> Str("q")
Start == FoldLeft(LAMBDA a, u : NewSpace(a, u), Machine, Ups)
Init == m = Start /\ hist = <<>> /\ st = "ok"
\* "tick" creates a computed variable: an existing one is never redefined
Effect(o) == CASE o.op = "assign" -> Assign(m, o.s, "x", ValueOf(o.v))
               [] o.op = "default" -> (IF Exists(m, o.s, "x") THEN m ELSE Assign(m, o.s, "x", ValueOf(o.v)))
               [] o.op = "tick" -> (IF Own(m, o.s, "x") THEN [m EXCEPT !.st = "cpp"] ELSE [m EXCEPT !.heis[o.s] = ("x" :> "tick") @@ @])
Do(o) == \A r \in {Effect(o)} : /\ m' = [r EXCEPT !.st = "ok"] /\ st' = r.st /\ hist' = Append(hist, o)
                                /\ Gen => PrintT(<<"SCN", ToJson(Append(hist, o))>>)
Next == \E s \in 1..N, op \in {"assign", "default", "tick"}, v \in Values : (op = "tick" => v = "1") /\ Do([op |-> op, s |-> s, v |-> v])
Spec == Init /\ [][Next]_vars
View == <<m.ns, m.heis, st>>
Kind(a, s) == IF "x" \in DOMAIN a.heis[s] THEN "computed" ELSE IF "x" \in DOMAIN a.ns[s] THEN a.ns[s]["x"].t ELSE "none"
\* a variable keeps its type, is never removed, and only the space of the assignment changes; errors change nothing
KeepsType == [][\A s \in 1..N : Kind(m, s) # "none" => Kind(m', s) = Kind(m, s)]_vars
Local == [][\A s \in 1..N : s # hist'[Len(hist')].s => m'.ns[s] = m.ns[s] /\ m'.heis[s] = m.heis[s]]_vars
ErrorsChangeNothing == [][st' # "ok" => m' = m]_vars
\* a lookup sees the innermost definition
Above(s) == {t \in 1..N : \E i \in DOMAIN Ups[s] : t = Ups[s][i]}
Innermost == \A s \in 1..N :
  /\ Exists(m, s, "x") = (Own(m, s, "x") \/ \E t \in Above(s) : Exists(m, t, "x"))
  /\ Own(m, s, "x") => Where(m, s, "x") = s
  /\ (Exists(m, s, "x") /\ ~Own(m, s, "x")) => \E t \in Above(s) : Exists(m, t, "x") /\ Where(m, s, "x") = Where(m, t, "x")
=============================================================================
