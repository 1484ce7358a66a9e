------------------------------ MODULE HistMon ------------------------------
(* History_monitor: bounds of a quantity over the most recent fraction p/q of the iterations, from at most `cap`
   retained samples. Retained samples may be thinned out to a granularity r with r^cap = 1/(1 - p/q); which of the
   samples of a granule is kept is not prescribed. `rr` is r*1000, rounded up. *)
EXTENDS Integers, Sequences
VARIABLES p, q, cap, rr, exact,  \* parameters of the monitor
          kept,                  \* retained samples <<iteration, values>>, oldest first
          newest                 \* iteration of the sample offered last
hvars == <<p, q, cap, rr, exact, kept, newest>>

Last == kept[Len(kept)][1]
\* a sample has to be recorded if it is at least a granule newer than the newest recorded one
Must(it) == kept = <<>> \/ it*1000 >= Last*rr
InWindow(k, it) == k[1]*q >= it*(q - p)
OnEdge(k, it) == k[1]*q = it*(q - p)
\* the oldest granule of the window: the buffer may be too small for the samples of all cap + 1 granules touched
InOldest(k, it) == k[1]*q*1000 <= it*(q - p)*rr
Newer(s, n) == SubSeq(s, n + 1, Len(s))
\* `n` samples leave when the sample of iteration `it` arrives
Leaves(s, it, n) ==
  /\ \A i \in 1..n : ~InWindow(s[i], it) \/ (~exact /\ OnEdge(s[i], it)) \/ (Len(s) - i + 1 > cap /\ InOldest(s[i], it))
  /\ Len(s) - n <= cap
  /\ n < Len(s)
  /\ InWindow(s[n + 1], it) \/ (~exact /\ OnEdge(s[n + 1], it))
Record(it, v) ==
  /\ newest' = it
  /\ LET s == Append(kept, <<it, v>>) IN \E n \in 0..(Len(s) - 1) : Leaves(s, it, n) /\ kept' = Newer(s, n)
  /\ UNCHANGED <<p, q, cap, rr, exact>>
Thin(it) == ~Must(it) /\ newest' = it /\ UNCHANGED <<p, q, cap, rr, exact, kept>>
Sample(it, v) == Record(it, v) \/ Thin(it)
Setup(p1, q1, c1, r1, e1) == p' = p1 /\ q' = q1 /\ cap' = c1 /\ rr' = r1 /\ exact' = e1 /\ kept' = <<>> /\ newest' = -1

\* what a user may rely on
MinOf(j) == CHOOSE x \in {kept[i][2][j] : i \in DOMAIN kept} : \A i \in DOMAIN kept : x <= kept[i][2][j]
MaxOf(j) == CHOOSE x \in {kept[i][2][j] : i \in DOMAIN kept} : \A i \in DOMAIN kept : x >= kept[i][2][j]
Bounded == Len(kept) <= cap
Ordered == \A i \in 1..(Len(kept) - 1) : kept[i][1] < kept[i + 1][1]
\* the newest recorded sample is at most a granule old
Fresh == kept # <<>> => newest = Last \/ newest*1000 < Last*rr
\* nothing older than the window (as of the newest recorded sample) contributes
Current == \A i \in DOMAIN kept : InWindow(kept[i], Last)
=============================================================================
