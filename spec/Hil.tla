-------------------------------- MODULE Hil --------------------------------
(* The case-input language (HIL): values and operators, variables in nested namespaces, and an abstract machine that executes
   program text. The text is a string; macro substitution edits the text that remains to be processed, so the machine works on
   characters.

   A machine configuration is a record with
     ns    the variable spaces: ns[s] is a function from names to values (the variables that s itself defines)
     up    up[s] is the sequence of spaces which enclose s
     heis  heis[s] maps names of variables that compute their value to what they are ("tick", "exit", "throw", "opaque")
     files contents of the files that can be read
     inp   lines of the standard input that have not been read yet
     cnt   how often the counter "tick" has been evaluated
     cur   the space in which the program runs
     txt, pos   program text and position: txt[pos..] remains to be processed
     stk   stack of constructs which wait for a value
     mode  "opnd" (a value is expected), "optr" (a value has been found: an operator may follow), "halt"
     val   the latest value
     out   what has been printed
     st    "ok", "hil" (unhandled HIL exception), "cpp" (exception of the implementation), "unk" (outside of what is modeled:
           numbers whose exact value is not represented here, and the like)
     why      the undefined variable that was the reason of the exception
     exited   whether the program has been ended early *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

-----------------------------------------------------------------------------
(* Values. Reals are dyadic rationals n/2^k, in lowest terms. *)
None == [t |-> "none"]
Err == [t |-> "err"]
Unk == [t |-> "unk"]
IntV(n) == [t |-> "int", i |-> n]
Str(s) == [t |-> "str", s |-> s]
\* known to 6 decimals only
Approx(u) == [t |-> "apx", u |-> u]
Limit == 1073741823
AbsI(n) == IF n < 0 THEN -n ELSE n
Pow2H == [k \in 0..29 |-> 2^k]
RECURSIVE Lowest(_, _)
Lowest(n, k) == IF k = 0 \/ n % 2 # 0 THEN <<n, k>> ELSE Lowest(n \div 2, k - 1)
Real(n, k) == IF n = 0 THEN [t |-> "real", n |-> 0, k |-> 0] ELSE LET q == Lowest(n, k) IN [t |-> "real", n |-> q[1], k |-> q[2]]
Numeric(a) == a.t \in {"int", "real"}
\* checked arithmetic: <<>> if out of range
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
MulI(a, b) == IF a = 0 \/ b = 0 THEN <<0>> ELSE IF AbsI(a) > Limit \div AbsI(b) THEN <<>> ELSE <<a*b>>
AddI(a, b) == IF AbsI(a) > Limit \div 2 \/ AbsI(b) > Limit \div 2 THEN <<>> ELSE <<a + b>>
QuoI(a, b) == Sgn(a)*Sgn(b)*(AbsI(a) \div AbsI(b))
RemI(a, b) == a - b*QuoI(a, b)
AsReal(a) == IF a.t = "int" THEN Real(a.i, 0) ELSE a
\* the numerators of two reals over their common denominator, or <<>>
Align(a, b) == LET k == IF a.k > b.k THEN a.k ELSE b.k
                   x == MulI(a.n, Pow2H[k - a.k])
                   y == MulI(b.n, Pow2H[k - b.k])
               IN IF x = <<>> \/ y = <<>> THEN <<>> ELSE <<x[1], y[1], k>>
MakeR(n, k) == IF n = <<>> \/ k > 20 THEN Unk ELSE Real(n[1], k)
AddR(a, b) == LET q == Align(a, b) IN IF q = <<>> THEN Unk ELSE MakeR(AddI(q[1], q[2]), q[3])
NegR(a) == IF a.n = 0 THEN Unk ELSE [a EXCEPT !.n = -a.n]  \* negative zero is not modeled
MulR(a, b) == IF (a.n = 0 \/ b.n = 0) /\ (a.n < 0 \/ b.n < 0) THEN Unk ELSE IF a.k + b.k > 20 THEN Unk ELSE MakeR(MulI(a.n, b.n), a.k + b.k)
RECURSIVE OddPart(_, _)
OddPart(n, e) == IF n % 2 = 0 THEN OddPart(n \div 2, e + 1) ELSE <<n, e>>
DivR(a, b) ==
  IF b.n = 0 THEN Unk
  ELSE IF a.n = 0 THEN (IF b.n < 0 THEN Unk ELSE a)
  ELSE LET o == OddPart(AbsI(b.n), 0) IN
       IF AbsI(a.n) % o[1] # 0 THEN Unk
       ELSE LET n == Sgn(b.n)*Sgn(a.n)*(AbsI(a.n) \div o[1])
                k == a.k - b.k + o[2]      \* n / 2^k
            IN IF k >= 0 THEN MakeR(<<n>>, k) ELSE IF -k > 20 THEN Unk ELSE MakeR(MulI(n, Pow2H[-k]), 0)
RECURSIVE PowI(_, _)
PowI(a, n) == IF n = 0 THEN <<1>> ELSE LET r == PowI(a, n - 1) IN IF r = <<>> THEN r ELSE MulI(r[1], a)
RECURSIVE PowR(_, _)
PowR(a, n) == IF n = 0 THEN Real(1, 0) ELSE LET r == PowR(a, n - 1) IN IF r = Unk THEN r ELSE MulR(r, a)

\* ---- strings: numbers are converted to their shortest ordinary notation ("%g")
RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN "" ELSE "0" \o Zeros(n - 1)
RECURSIVE StripZeros(_)
StripZeros(s) == IF s = "" THEN s ELSE IF SubSeq(s, Len(s), Len(s)) = "0" THEN StripZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* digits after the decimal point of f/2^k
RECURSIVE Decimals(_, _)
Decimals(f, k) == IF f = 0 THEN "" ELSE ToString((f*10) \div Pow2H[k]) \o Decimals((f*10) % Pow2H[k], k)
LeadZeros(s) == CHOOSE n \in 0..Len(s) : (\A i \in 1..n : SubSeq(s, i, i) = "0") /\ (n = Len(s) \/ SubSeq(s, n + 1, n + 1) # "0")
\* <<>> if the notation is not modeled (more than 6 digits, exponents)
ShowR(a) ==
  LET m == AbsI(a.n)
      ip == m \div Pow2H[a.k]
      ds == IF a.k > 20 THEN "" ELSE Decimals(m % Pow2H[a.k], a.k)
      sig == IF ip > 0 THEN Len(ToString(ip)) + Len(ds) ELSE Len(ds) - LeadZeros(ds)
      small == ip = 0 /\ a.n # 0 /\ LeadZeros(ds) > 3
  IN IF a.k > 20 \/ sig > 6 \/ small THEN <<>>
     ELSE <<(IF a.n < 0 THEN "-" ELSE "") \o ToString(ip) \o (IF ds = "" THEN "" ELSE "." \o ds)>>
\* conversion to a string, or <<>>
Show(a) == CASE a.t = "int" -> <<ToString(a.i)>> [] a.t = "str" -> <<a.s>> [] a.t = "none" -> <<"">>
             [] a.t = "real" -> ShowR(a) [] OTHER -> <<>>

\* ---- operators
Bool(c) == IntV(IF c THEN 1 ELSE 0)
Truth(a) == IF a.t = "int" THEN a.i # 0 ELSE a.n # 0
\* -1, 0, 1 or <<>>
Order(a, b) == IF a.t = "int" /\ b.t = "int" THEN <<IF a.i < b.i THEN -1 ELSE IF a.i > b.i THEN 1 ELSE 0>>
               ELSE LET q == Align(AsReal(a), AsReal(b)) IN IF q = <<>> THEN <<>> ELSE <<Sgn(q[1] - q[2])>>
Compare(op, a, b) ==
  IF ~(Numeric(a) /\ Numeric(b)) THEN Err
  ELSE LET o == Order(a, b) IN
       IF op = "&" THEN Bool(Truth(a) /\ Truth(b))
       ELSE IF op = "|" THEN Bool(Truth(a) \/ Truth(b))
       ELSE IF o = <<>> THEN Unk
       ELSE CASE op = ">" -> Bool(o[1] > 0) [] op = "<" -> Bool(o[1] < 0) [] op = ">=" -> Bool(o[1] >= 0)
              [] op = "<=" -> Bool(o[1] <= 0) [] op = "==" -> Bool(o[1] = 0) [] op = "!=" -> Bool(o[1] # 0)
Arith(op, a, b) ==
  IF ~(Numeric(a) /\ Numeric(b)) THEN Err
  ELSE IF a.t = "int" /\ b.t = "int"
  THEN LET x == a.i  y == b.i
           small(r) == IF r = <<>> THEN Unk ELSE IntV(r[1])
       IN CASE op = "+" -> small(AddI(x, y))
            [] op = "-" -> small(AddI(x, -y))
            [] op = "*" -> small(MulI(x, y))
            [] op = "/" -> (IF y = 0 THEN Err ELSE IntV(QuoI(x, y)))
            \* a negative power is the quotient of integers
            [] op = "^" -> IF y >= 0 THEN (IF y > 40 THEN Unk ELSE small(PowI(x, y)))
                           ELSE IF x = 0 THEN Err ELSE IF x = 1 THEN IntV(1) ELSE IF x = -1 THEN IntV(IF y % 2 = 0 THEN 1 ELSE -1) ELSE IntV(0)
  ELSE LET x == AsReal(a)  y == AsReal(b) IN
       CASE op = "+" -> AddR(x, y)
         [] op = "-" -> (IF y.n = 0 THEN x ELSE AddR(x, NegR(y)))
         [] op = "*" -> MulR(x, y)
         [] op = "/" -> DivR(x, y)
         [] op = "^" -> IF y.k # 0 \/ AbsI(y.n) > 12 THEN Unk
                        ELSE IF y.n >= 0 THEN PowR(x, y.n)
                        ELSE IF x.n = 0 THEN Unk ELSE LET p == PowR(x, -y.n) IN IF p = Unk THEN Unk ELSE DivR(Real(1, 0), p)
Unknown(a) == a.t \in {"unk", "apx"}
Binary(op, a, b) ==
  IF Unknown(a) \/ Unknown(b) THEN Unk
  ELSE CASE op = "%" -> (IF a.t # "int" \/ b.t # "int" THEN Err ELSE IF b.i = 0 THEN Err ELSE IntV(RemI(a.i, b.i)))
         [] op = "#" -> (IF a.t # "str" \/ b.t # "int" THEN Err ELSE IF b.i < 0 \/ b.i >= Len(a.s) THEN Err ELSE Str(SubSeq(a.s, b.i + 1, b.i + 1)))
         [] op = "+" -> (IF a.t = "str" \/ b.t = "str"
                         THEN (IF Show(a) = <<>> \/ Show(b) = <<>> THEN Unk ELSE Str(Show(a)[1] \o Show(b)[1]))
                         ELSE Arith(op, a, b))
         [] op \in {"==", "!="} -> (IF a.t = "str" /\ b.t = "str" THEN Bool((a.s = b.s) = (op = "==")) ELSE Compare(op, a, b))
         [] op \in {">=", "<=", "<", ">", "&", "|"} -> Compare(op, a, b)
         [] op \in {"^", "/", "*", "-"} -> Arith(op, a, b)
BinOps == {"^", "#", "%", "/", "*", "-", "+", "==", "!=", ">=", "<=", "<", ">", "&", "|"}
Prec(op) == CASE op \in {"^", "#"} -> 1 [] op \in {"%", "/", "*"} -> 2 [] op \in {"-", "+"} -> 3
              [] op \in {"==", "!=", ">=", "<=", "<", ">"} -> 4 [] op \in {"&", "|"} -> 5

\* functions of a real, at the points where their values are known here (to 6 decimals, unless exact)
Tbl(f, x) ==
  LET p == <<f, x.n, x.k>> IN
  CASE p \in {<<"exp", 0, 0>>, <<"cos", 0, 0>>} -> Real(1, 0)
    [] p \in {<<"log", 1, 0>>, <<"sin", 0, 0>>, <<"tan", 0, 0>>, <<"asin", 0, 0>>, <<"acos", 1, 0>>, <<"atan", 0, 0>>} -> Real(0, 0)
    [] p = <<"sin", 1, 0>> -> Approx(841471) [] p = <<"cos", 1, 0>> -> Approx(540302) [] p = <<"tan", 1, 0>> -> Approx(1557408)
    [] p = <<"asin", 1, 0>> -> Approx(1570796) [] p = <<"acos", 0, 0>> -> Approx(1570796) [] p = <<"atan", 1, 0>> -> Approx(785398)
    [] p = <<"exp", 1, 0>> -> Approx(2718282) [] p = <<"log", 2, 0>> -> Approx(693147) [] p = <<"sqrt", 2, 0>> -> Approx(1414214)
    [] p = <<"exp", 2, 0>> -> Approx(7389056) [] p = <<"log", 1, 1>> -> Approx(-693147) [] p = <<"sqrt", 1, 1>> -> Approx(707107)
    [] p = <<"asin", 1, 1>> -> Approx(523599) [] p = <<"acos", 1, 1>> -> Approx(1047198) [] p = <<"atan", 1, 1>> -> Approx(463648)
    [] p = <<"sin", 1, 1>> -> Approx(479426) [] p = <<"cos", 1, 1>> -> Approx(877583) [] p = <<"tan", 1, 1>> -> Approx(546302)
    [] p = <<"sin", 2, 0>> -> Approx(909297) [] p = <<"cos", 2, 0>> -> Approx(-416147) [] p = <<"atan", 2, 0>> -> Approx(1107149)
    [] OTHER -> Unk
Functions == {"sqrt", "exp", "log", "sin", "cos", "tan", "asin", "acos", "atan"}
RootI(n) == IF n > 40000 THEN -1 ELSE LET s == {r \in 0..200 : r*r = n} IN IF s = {} THEN -1 ELSE CHOOSE r \in s : TRUE
SqrtR(x) == IF x.n < 0 THEN Unk
            ELSE IF x.k % 2 = 0 /\ RootI(x.n) >= 0 THEN Real(RootI(x.n), x.k \div 2) ELSE Tbl("sqrt", x)
Floor(x) == x.n \div Pow2H[x.k]
Ceil(x) == -((-x.n) \div Pow2H[x.k])
\* halves are rounded away from zero
Round(x) == IF x.k = 0 THEN x.n ELSE Sgn(x.n)*((2*AbsI(x.n) + Pow2H[x.k]) \div (2*Pow2H[x.k]))
UnOps == Functions \cup {"-", "!", "#", "floor", "ceil", "round", "abs", "print", "println", "read", "shell"}
Unary(op, a) ==
  IF Unknown(a) THEN Unk
  ELSE CASE op = "-" -> (IF a.t = "int" THEN IntV(-a.i) ELSE IF a.t = "real" THEN NegR(a) ELSE Err)
         [] op = "!" -> (IF a.t = "int" THEN Bool(a.i = 0) ELSE Err)
         [] op = "#" -> (IF a.t = "str" THEN IntV(Len(a.s)) ELSE Err)
         [] op = "abs" -> (IF a.t = "int" THEN IntV(AbsI(a.i)) ELSE IF a.t = "real" THEN [a EXCEPT !.n = AbsI(a.n)] ELSE Err)
         [] op \in {"floor", "ceil", "round"} ->
            (IF ~Numeric(a) THEN Err
             ELSE LET x == AsReal(a) IN IF AbsI(x.n) > Limit \div 4 THEN Unk
                                        ELSE IntV(IF op = "floor" THEN Floor(x) ELSE IF op = "ceil" THEN Ceil(x) ELSE Round(x)))
         [] op = "sqrt" -> (IF Numeric(a) THEN SqrtR(AsReal(a)) ELSE Err)
         [] op \in Functions -> (IF Numeric(a) THEN Tbl(op, AsReal(a)) ELSE Err)
         [] op \in {"read", "shell"} -> (IF a.t = "str" THEN Unk ELSE Err)
         [] op \in {"print", "println"} -> (IF Show(a) = <<>> THEN Unk ELSE Str(""))

-----------------------------------------------------------------------------
(* Variables *)
Own(m, s, x) == x \in DOMAIN m.ns[s] \/ x \in DOMAIN m.heis[s]
RECURSIVE Exists(_, _, _)
Exists(m, s, x) == Own(m, s, x) \/ \E i \in DOMAIN m.up[s] : Exists(m, m.up[s][i], x)
\* the space whose variable x is seen from s: the innermost (and, among several enclosing spaces, the first)
RECURSIVE Where(_, _, _)
Where(m, s, x) == IF Own(m, s, x) THEN s
                  ELSE LET i == CHOOSE j \in DOMAIN m.up[s] : Exists(m, m.up[s][j], x) /\ \A k \in 1..(j - 1) : ~Exists(m, m.up[s][k], x)
                       IN Where(m, m.up[s][i], x)
\* result of an assignment: the variable gets the type of its first value, an integer may be assigned to a real
Assign(m, s, x, v) ==
  IF Unknown(v) /\ v.t # "apx" THEN [m EXCEPT !.st = "unk"]
  ELSE IF x \in DOMAIN m.heis[s] THEN [m EXCEPT !.st = "cpp"]
  ELSE IF x \notin DOMAIN m.ns[s] THEN [m EXCEPT !.ns[s] = (x :> v) @@ @]
  ELSE LET t == m.ns[s][x].t  tt == IF t = "apx" THEN "real" ELSE t  vt == IF v.t = "apx" THEN "real" ELSE v.t IN
       IF vt = tt THEN [m EXCEPT !.ns[s][x] = v]
       ELSE IF vt = "int" /\ tt = "real" THEN [m EXCEPT !.ns[s][x] = AsReal(v)]
       ELSE [m EXCEPT !.st = "cpp"]

-----------------------------------------------------------------------------
(* Text *)
Ch(m, p) == IF p <= Len(m.txt) THEN SubSeq(m.txt, p, p) ELSE ""
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y",
            "z", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X",
            "Y", "Z", "_"}
Terminators == {"\n", ";"}
RECURSIVE Spaces(_, _)
Spaces(m, p) == IF Ch(m, p) = " " THEN Spaces(m, p + 1) ELSE p
RECURSIVE NameEnd(_, _)
NameEnd(m, p) == LET c == Ch(m, p) IN IF c \in Letters \/ c \in Digits THEN NameEnd(m, p + 1) ELSE p
Sub(m, a, b) == SubSeq(m.txt, a, b - 1)
\* a numeric literal: characters up to here
RECURSIVE NumEnd(_, _)
NumEnd(m, p) == LET c == Ch(m, p) IN
  IF c \in Digits \/ c \in {".", "e", "E"} THEN NumEnd(m, p + 1)
  ELSE IF c \in {"-", "+"} /\ Ch(m, p - 1) \in {"e", "E"} THEN NumEnd(m, p + 1) ELSE p
DigitVal(c) == CHOOSE n \in 0..9 : ToString(n) = c
RECURSIVE DigitsVal(_, _)
DigitsVal(s, acc) == IF s = "" THEN <<acc>> ELSE IF acc > 100000000 THEN <<>> ELSE DigitsVal(SubSeq(s, 2, Len(s)), acc*10 + DigitVal(SubSeq(s, 1, 1)))
AllDigits(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in Digits
Find(s, cs) == LET q == {i \in 1..Len(s) : SubSeq(s, i, i) \in cs} IN IF q = {} THEN 0 ELSE CHOOSE i \in q : \A j \in q : i <= j
Pow10H == [k \in 0..6 |-> 10^k]
Literal(s) ==
  IF AllDigits(s) THEN (LET v == DigitsVal(s, 0) IN IF v = <<>> THEN Unk ELSE IntV(v[1]))
  ELSE LET e == Find(s, {"e", "E"})
           mant == IF e = 0 THEN s ELSE SubSeq(s, 1, e - 1)
           expo == IF e = 0 THEN "0" ELSE SubSeq(s, e + 1, Len(s))
           eneg == expo # "" /\ SubSeq(expo, 1, 1) = "-"
           edig == IF expo # "" /\ SubSeq(expo, 1, 1) \in {"-", "+"} THEN SubSeq(expo, 2, Len(expo)) ELSE expo
           d == Find(mant, {"."})
           ip == IF d = 0 THEN mant ELSE SubSeq(mant, 1, d - 1)
           fp == IF d = 0 THEN "" ELSE SubSeq(mant, d + 1, Len(mant))
       IN IF ~AllDigits(ip) \/ ~AllDigits(fp) \/ ip \o fp = "" \/ edig = "" \/ ~AllDigits(edig) THEN Err
          ELSE LET v == DigitsVal(ip \o fp, 0)
                   ev == DigitsVal(edig, 0)
               IN IF v = <<>> \/ ev = <<>> THEN Unk
                  ELSE LET x == (IF eneg THEN -ev[1] ELSE ev[1]) - Len(fp) IN  \* v * 10^x
                       IF v[1] = 0 THEN Real(0, 0) ELSE IF AbsI(x) > 6 THEN Unk
                       ELSE IF x >= 0 THEN MakeR(MulI(v[1], Pow10H[x]), 0)
                       ELSE DivR(Real(v[1], 0), Real(Pow10H[-x], 0))
\* a string literal whose opening brace is before p: <<position after the closing brace, whether there are escapes>>, <<>> if not closed
RECURSIVE StrEnd(_, _, _, _, _)
StrEnd(m, p, depth, esc, any) ==
  LET c == Ch(m, p) IN
  IF p > Len(m.txt) THEN <<>>
  ELSE IF c = "\\" /\ ~esc THEN StrEnd(m, p + 1, depth, TRUE, TRUE)
  ELSE LET d == IF esc THEN depth ELSE IF c = "{" THEN depth + 1 ELSE IF c = "}" THEN depth - 1 ELSE depth IN
       IF d = 0 THEN <<p + 1, any>> ELSE StrEnd(m, p + 1, d, FALSE, any)
\* a backslash stands for the character that follows
RECURSIVE Unescape(_)
Unescape(s) == IF s = "" THEN s
               ELSE IF SubSeq(s, 1, 1) = "\\" THEN SubSeq(s, 2, 2) \o Unescape(SubSeq(s, 3, Len(s)))
               ELSE SubSeq(s, 1, 1) \o Unescape(SubSeq(s, 2, Len(s)))
\* <<value, position after the literal>>
StrLit(m, p) == LET q == StrEnd(m, p, 1, FALSE, FALSE) IN
  IF q = <<>> THEN q ELSE LET s == Sub(m, p, q[1] - 1) IN <<IF q[2] THEN Unescape(s) ELSE s, q[1]>>
\* operator at position p: the longest that matches
OpAt(m, p) == LET two == Ch(m, p) \o Ch(m, p + 1)  one == Ch(m, p) IN
  IF Len(two) = 2 /\ two \in BinOps THEN two ELSE IF one \in BinOps THEN one ELSE ""
\* the end of the statement that contains position p, with `paren' parentheses open
RECURSIVE Skip(_, _, _, _, _)
Skip(m, p, paren, brace, esc) ==
  LET c == Ch(m, p) IN
  IF p > Len(m.txt) THEN p
  ELSE IF brace = 0 /\ paren = 0 /\ c \in Terminators THEN p
  ELSE Skip(m, p + 1,
            IF brace # 0 THEN paren ELSE IF c = "(" THEN paren + 1 ELSE IF c = ")" /\ paren > 0 THEN paren - 1 ELSE paren,
            IF esc THEN brace ELSE IF c = "{" THEN brace + 1 ELSE IF c = "}" /\ brace > 0 THEN brace - 1 ELSE brace,
            brace > 0 /\ c = "\\" /\ ~esc)

-----------------------------------------------------------------------------
(* The machine. Levels: an operator binds its left operand if its precedence is below that of the construct which waits. *)
Level(fr) == CASE fr.f \in {"un", "sub"} -> 0 [] fr.f = "bin" -> Prec(fr.op) [] fr.f = "asg" -> 6 [] fr.f = "seq" -> 7
Top(m) == m.stk[Len(m.stk)]
Pop(m) == SubSeq(m.stk, 1, Len(m.stk) - 1)
Push(m, fr) == Append(m.stk, fr)
\* v: the value of the sequence of statements so far
SeqF(p) == [f |-> "seq", paren |-> p, v |-> None]
Message == "<exception>"
Parens(m) == Cardinality({i \in DOMAIN m.stk : m.stk[i].f = "seq" /\ m.stk[i].paren})
\* a HIL exception was raised: run the handler, if there is one, then go on after the statement
Raise(m) ==
  LET s == m.cur  h == m.ns[s]["except"].s IN
  IF h = "" THEN [m EXCEPT !.st = "hil", !.mode = "halt"]
  ELSE LET p == Skip(m, m.pos, Parens(m), 0, FALSE) IN
       [m EXCEPT !.ns[s]["exception"] = Str(Message), !.ns[s]["except"] = Str(""), !.stk = <<SeqF(FALSE)>>, !.mode = "opnd", !.val = None, !.why = "",
                 !.txt = h \o "; exception = {};" \o SubSeq(m.txt, p, Len(m.txt)), !.pos = 1]
\* continue with a value
Give(m, v) == IF v = Err THEN Raise(m) ELSE IF v = Unk THEN [m EXCEPT !.st = "unk", !.mode = "halt"] ELSE [m EXCEPT !.val = v, !.mode = "optr"]
Halted(m) == IF m.st # "ok" THEN [m EXCEPT !.mode = "halt"] ELSE m

LookupVar(m, x) ==
  IF ~Exists(m, m.cur, x) THEN Raise([m EXCEPT !.why = x])
  ELSE LET s == Where(m, m.cur, x) IN
       IF x \in DOMAIN m.ns[s] THEN Give(m, m.ns[s][x])
       ELSE CASE m.heis[s][x] = "tick" -> Give([m EXCEPT !.cnt = @ + 1], IntV(m.cnt))
              \* a line of the standard input (nothing at the end of it)
              [] m.heis[s][x] = "ask" -> Give([m EXCEPT !.inp = IF @ = <<>> THEN <<>> ELSE Tail(@)], Str(IF m.inp = <<>> THEN "" ELSE m.inp[1]))
              [] m.heis[s][x] = "throw" -> [m EXCEPT !.st = "cpp", !.mode = "halt"]
              \* ends the program, except for the operators which wait for this value. In an enclosing space, it ends the
              \* program of that interpreter, which is not running
              [] m.heis[s][x] = "exit" -> (IF s = m.cur THEN Give([m EXCEPT !.pos = Len(m.txt) + 1, !.exited = TRUE], Str("")) ELSE Give(m, Str("")))
              [] OTHER -> [m EXCEPT !.st = "unk", !.mode = "halt"]

Operand(m0) ==
  LET m == [m0 EXCEPT !.pos = Spaces(m0, m0.pos)]
      p == m.pos
      c == Ch(m, p)
      fr == Top(m)
  IN
  IF c = "" THEN
     (IF fr.f = "seq" THEN (IF ~fr.paren THEN [m EXCEPT !.mode = "halt"]
                            ELSE IF m.exited THEN [m EXCEPT !.mode = "optr", !.stk = Pop(m), !.val = fr.v] ELSE Raise(m))
      ELSE Give(m, None))
  ELSE IF c = "$" THEN [m EXCEPT !.pos = p + 1, !.stk = Push(m, [f |-> "sub"]), !.val = None]
  ELSE IF c \in Terminators THEN (IF fr.f = "seq" THEN [m EXCEPT !.pos = p + 1] ELSE Give(m, None))
  ELSE IF c = "(" THEN [m EXCEPT !.pos = p + 1, !.stk = Push(m, SeqF(TRUE)), !.val = None]
  ELSE IF c = ")" THEN (IF fr.f = "seq" /\ fr.paren THEN [m EXCEPT !.pos = p + 1, !.stk = Pop(m), !.mode = "optr", !.val = fr.v] ELSE Raise(m))
  ELSE IF c \in Digits \/ c = "." THEN (LET q == NumEnd(m, p) IN Give([m EXCEPT !.pos = q], Literal(Sub(m, p, q))))
  ELSE IF c = "{" THEN (LET q == StrLit(m, p + 1) IN
                        IF q = <<>> THEN Raise([m EXCEPT !.pos = Len(m.txt) + 1]) ELSE Give([m EXCEPT !.pos = q[2]], Str(q[1])))
  ELSE IF c \in Letters THEN
     (LET q == NameEnd(m, p)
          x == Sub(m, p, q)
          r == Spaces(m, q)
      IN IF x \in UnOps THEN [m EXCEPT !.pos = q, !.stk = Push(m, [f |-> "un", op |-> x]), !.val = None]
         ELSE IF Ch(m, r) = "=" /\ Ch(m, r + 1) # "=" THEN [m EXCEPT !.pos = r + 1, !.stk = Push(m, [f |-> "asg", x |-> x]), !.val = None]
         ELSE LookupVar([m EXCEPT !.pos = r], x))
  ELSE IF c \in UnOps THEN [m EXCEPT !.pos = p + 1, !.stk = Push(m, [f |-> "un", op |-> c]), !.val = None]
  ELSE Raise(m)

ReadFile(m, f) == IF f \in DOMAIN m.files THEN Str(m.files[f]) ELSE Err
\* commands which are known to do nothing but end with a certain return code
Shell(c) == CASE c = "true" -> IntV(0) [] c = "false" -> IntV(1) [] c = "exit 3" -> IntV(3) [] c = "exit 0" -> IntV(0) [] OTHER -> Unk
Operator(m0) ==
  LET m == [m0 EXCEPT !.pos = Spaces(m0, m0.pos)]
      fr == Top(m)
      op == OpAt(m, m.pos)
      up == [m EXCEPT !.stk = Pop(m)]
  IN
  IF op # "" /\ Prec(op) < Level(fr) THEN [m EXCEPT !.pos = m.pos + Len(op), !.stk = Push(m, [f |-> "bin", op |-> op, left |-> m.val]), !.mode = "opnd", !.val = None]
  ELSE CASE fr.f = "bin" -> Give(up, Binary(fr.op, fr.left, m.val))
         [] fr.f = "un" -> (LET v == IF fr.op = "read" /\ m.val.t = "str" THEN ReadFile(m, m.val.s)
                                       ELSE IF fr.op = "shell" /\ m.val.t = "str" THEN Shell(m.val.s) ELSE Unary(fr.op, m.val)
                                o == IF fr.op = "print" /\ v.t = "str" THEN Show(m.val)[1]
                                     ELSE IF fr.op = "println" /\ v.t = "str" THEN Show(m.val)[1] \o "\n" ELSE ""
                            IN Give([up EXCEPT !.out = @ \o o], v))
         [] fr.f = "asg" -> (IF m.val = None THEN Raise(up)
                             ELSE LET a == Assign(up, m.cur, fr.x, m.val) IN IF a.st # "ok" THEN Halted(a) ELSE [a EXCEPT !.mode = "optr"])
         [] fr.f = "sub" -> (IF m.val.t # "str" THEN Raise(up)
                             ELSE [up EXCEPT !.txt = m.val.s \o SubSeq(m.txt, m.pos, Len(m.txt)), !.pos = 1, !.mode = "opnd", !.val = None])
         [] fr.f = "seq" -> [m EXCEPT !.mode = "opnd", !.stk[Len(m.stk)].v = m.val, !.val = None]
Step(m) == IF m.mode = "opnd" THEN Operand(m) ELSE IF m.mode = "optr" THEN Operator(m) ELSE m

\* ---- interpreters
Builtins == ("exception" :> Str("")) @@ ("except" :> Str("")) @@ ("format_double" :> Str("%g")) @@ ("huge" :> Approx(2000000001))
Heisenbergs == ("ask" :> "ask") @@ ("exit" :> "exit") @@ ("throw" :> "throw") @@ ("system_time" :> "opaque") @@ ("steady_time" :> "opaque")
Empty == [x \in {} |-> None]
Machine == [ns |-> <<>>, up |-> <<>>, heis |-> <<>>, cnt |-> 0, cur |-> 0, txt |-> "", pos |-> 1, stk |-> <<>>, mode |-> "halt", val |-> None,
            out |-> "", st |-> "ok", exited |-> FALSE, why |-> "", files |-> Empty, inp |-> <<>>]
NewSpace(m, ups) == [m EXCEPT !.ns = Append(@, Empty), !.up = Append(@, ups), !.heis = Append(@, Empty)]
NewInterp(m, ups) == [m EXCEPT !.ns = Append(@, Builtins), !.up = Append(@, ups), !.heis = Append(@, Heisenbergs)]
Load(m, s, prog) == [m EXCEPT !.cur = s, !.txt = prog, !.pos = 1, !.stk = <<SeqF(FALSE)>>, !.mode = "opnd", !.val = None, !.out = "", !.st = "ok",
                             !.exited = FALSE, !.why = ""]
\* runs a loaded program to its end (programs which do not end within this many steps are not modeled)
Hundred == [i \in 1..100 |-> i]
Run(m) == FoldLeft(LAMBDA a, i : IF a.mode = "halt" THEN a ELSE FoldLeft(LAMBDA b, j : IF b.mode = "halt" THEN b ELSE Step(b), a, Hundred), m, Hundred)
=============================================================================
