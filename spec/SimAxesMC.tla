----------------------------- MODULE SimAxesMC -----------------------------
(* Why one family of runs decides equivariance: the changes of axes form a group which acts on cells, points and momenta, and exchange
   of fluxes between neighboring cells commutes with the action (in integers, on grids with Size cells per dimension). A scheme which
   treats one dimension or one direction differently (Broken) does not. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS ND, Size, Vals, Broken
VARIABLES u,   \* cell -> value
          a    \* axes
vars == <<u, a>>
Dims == 1..ND
Cells == [Dims -> 0..(Size - 1)]
Perms == {p \in [Dims -> Dims] : \A i, j \in Dims : i # j => p[i] # p[j]}
Axes == {[ax |-> p, rev |-> r] : p \in Perms, r \in [Dims -> {0, 1}]}
Inv(s, i) == CHOOSE j \in Dims : s.ax[j] = i
\* the cell of the solver for cell c of the problem, and back
ToS(s, c) == [i \in Dims |-> LET j == Inv(s, i) IN IF s.rev[j] = 1 THEN Size - 1 - c[j] ELSE c[j]]
ToP(s, c) == [j \in Dims |-> IF s.rev[j] = 1 THEN Size - 1 - c[s.ax[j]] ELSE c[s.ax[j]]]
Move(s, f) == [c \in Cells |-> f[ToP(s, c)]]
Back(s, f) == [c \in Cells |-> f[ToS(s, c)]]
Nb(c, d, k) == [c EXCEPT ![d] = @ + k]
Flux(x, y, d) == IF Broken /\ d = 1 THEN x ELSE x - y
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + SumSet(S \ {x})
Out(f, c) == SumSet({<<<<d, k>>, k * (IF k = 1 THEN Flux(f[c], f[Nb(c, d, 1)], d) ELSE Flux(f[Nb(c, d, -1)], f[c], d))>> :
                     <<d, k>> \in {x \in Dims \X {-1, 1} : Nb(c, x[1], x[2]) \in Cells}})
Scheme(f) == [c \in Cells |-> 8*f[c] - Out(f, c)]
Init == u \in [Cells -> Vals] /\ a \in Axes
Iterate == u' = Scheme(u) /\ UNCHANGED a
Other == a' \in Axes /\ UNCHANGED u
Next == Iterate \/ Other
Bound == \A c \in Cells : u[c] \in -1000..1000
Spec == Init /\ [][Next]_vars
Inverse == \A c \in Cells : ToS(a, ToP(a, c)) = c /\ ToP(a, ToS(a, c)) = c
Equivariant == Back(a, Scheme(Move(a, u))) = Scheme(u)
=============================================================================
