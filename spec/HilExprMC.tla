----------------------------- MODULE HilExprMC -----------------------------
(* The machine of Hil.tla evaluates expressions as their grammar says: for each syntax tree, rendered with parentheses only where
   precedence and left-to-right association require them, the machine computes the value of the tree. Also, whatever is
   computed has the documented type. *)
EXTENDS Hil
CONSTANTS Leaves, Ops, Uns, Spacing
VARIABLES tree, m
vars == <<tree, m>>
Leaf(x) == [k |-> "leaf", x |-> x]
LeafV(x) == CASE x = "2" -> IntV(2) [] x = "3" -> IntV(3) [] x = "0" -> IntV(0) [] x = "0.5" -> Real(1, 1) [] x = "4." -> Real(4, 0) [] x = "{ab}" -> Str("ab")
Bin(op, a, b) == [k |-> "bin", op |-> op, a |-> a, b |-> b]
Un(op, a) == [k |-> "un", op |-> op, a |-> a]
L == {Leaf(x) : x \in Leaves}
UL == L \cup {Un(o, a) : o \in Uns, a \in L}
\* the shape is chosen first, to have few initial states
Shapes == {"left", "right", "unleft", "unright", "unbin", "unpar"}
Trees(sh, o, p) ==
  CASE sh = "left" -> {Bin(o, Bin(p, a, b), c) : a, b, c \in L}
    [] sh = "right" -> {Bin(o, a, Bin(p, b, c)) : a, b, c \in L}
    [] sh = "unleft" -> {Bin(o, Bin(p, Un(u, a), b), Leaf("3")) : u \in Uns, a, b \in L}
    [] sh = "unright" -> {Bin(o, a, Bin(p, Leaf("2"), Un(u, b))) : u \in Uns, a, b \in L}
    [] sh = "unbin" -> {Un(u, Bin(o, a, b)) : u \in Uns, a, b \in UL}
    [] sh = "unpar" -> {Bin(o, Un(u, Bin(p, a, Leaf("2"))), b) : u \in Uns, a, b \in L}
None3 == [k |-> "none"]
Bad == {Err, Unk}
RECURSIVE Val(_)
Val(t) == CASE t.k = "leaf" -> LeafV(t.x)
            [] t.k = "un" -> (LET a == Val(t.a) IN IF a \in Bad THEN a ELSE Unary(t.op, a))
            [] t.k = "bin" -> (LET a == Val(t.a) IN IF a \in Bad THEN a ELSE LET b == Val(t.b) IN IF b \in Bad THEN b ELSE Binary(t.op, a, b))
PrecT(t) == IF t.k = "bin" THEN Prec(t.op) ELSE 0
Par(c, s) == IF c THEN "(" \o s \o ")" ELSE s
\* spaces matter only between names
RECURSIVE Show2(_)
Show2(t) == CASE t.k = "leaf" -> t.x
              [] t.k = "un" -> t.op \o (IF t.op \in {"-", "!", "#"} THEN "" ELSE " ") \o Par(t.a.k = "bin", Show2(t.a))
              [] t.k = "bin" -> Par(PrecT(t.a) > Prec(t.op), Show2(t.a)) \o Spacing \o t.op \o Spacing \o Par(PrecT(t.b) >= Prec(t.op), Show2(t.b))
Init == tree = None3 /\ m = Machine
Choose == /\ tree = None3
          /\ \E sh \in Shapes, o \in Ops, p \in Ops :
             /\ (sh = "unbin" => p = o)
             /\ \E t \in Trees(sh, o, p) :
                /\ tree' = t
                /\ m' = Load(NewInterp(Machine, <<>>), 1, "r = " \o Show2(t))
Execute == tree # None3 /\ m.mode # "halt" /\ m' = Run(m) /\ UNCHANGED tree
Next == Choose \/ Execute
Spec == Init /\ [][Next]_vars
RECURSIVE Size(_)
Computed ==
  (tree # None3 /\ m.mode = "halt") =>
  LET v == Val(tree) IN
  IF v = Err THEN m.st = "hil" /\ "r" \notin DOMAIN m.ns[1]
  ELSE IF v = Unk THEN m.st = "unk"
  ELSE m.st = "ok" /\ m.ns[1]["r"] = v
\* comparisons give 0 or 1, arithmetic on two integers stays integer, with a real it is real, with a string it is an error
Size(t) == IF t.k = "leaf" THEN 1 ELSE IF t.k = "un" THEN 1 + Size(t.a) ELSE 1 + Size(t.a) + Size(t.b)
Typed ==
  m.mode = "halt" => \A t \in {tree} : t.k = "bin" =>
    LET v == Val(t) a == Val(t.a) b == Val(t.b) IN
    (a \notin Bad /\ b \notin Bad /\ v # Unk) =>
      CASE t.op \in {"==", "!=", "<", ">", "<=", ">=", "&", "|"} -> v \in {Err, IntV(0), IntV(1)} /\ (v = Err) = ((a.t = "str") # (b.t = "str") \/ (a.t = "str" /\ t.op \notin {"==", "!="}))
        [] t.op \in {"+", "-", "*", "/", "^"} ->
             (IF a.t = "str" \/ b.t = "str" THEN (IF t.op = "+" THEN v.t = "str" ELSE v = Err)
              ELSE IF a.t = "int" /\ b.t = "int" THEN v.t = "int" \/ (v = Err /\ t.op \in {"/", "^"})
              ELSE v.t = "real")
        [] OTHER -> v.t \in {"int", "str", "err"}
=============================================================================
