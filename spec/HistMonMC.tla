----------------------------- MODULE HistMonMC -----------------------------
EXTENDS HistMon, TLC
CONSTANTS MaxIt, MaxStep
VARIABLE given  \* all iterations offered
Params == {<<1, 2, 1, 2000>>, <<1, 2, 2, 1415>>, <<1, 2, 3, 1260>>, <<1, 4, 1, 1334>>, <<1, 4, 2, 1155>>, <<3, 4, 2, 2000>>, <<3, 4, 4, 1415>>}
Init == given = {} /\ \E x \in Params : p = x[1] /\ q = x[2] /\ cap = x[3] /\ rr = x[4] /\ exact = TRUE /\ kept = <<>> /\ newest = -1
Next == \E d \in 1..MaxStep : LET it == newest + d IN
  /\ it <= MaxIt
  /\ given' = given \cup {it}
  /\ Sample(it, <<it>>)
Spec == Init /\ [][Next]_<<hvars, given>>
\* every sample offered inside the window, except in its two oldest granules, has a recorded one within a granule
InOldest2(g, it) == g*q*1000 <= ((it*(q - p)*rr) \div 1000)*rr
Covered == \A g \in given : LET k == <<g, 0>> IN
  (kept # <<>> /\ InWindow(k, newest) /\ ~InOldest2(g, newest)) =>
    (\E i \in DOMAIN kept : (kept[i][1] <= g /\ g*1000 < kept[i][1]*rr) \/ kept[i][1] = g)
\* samples at least a granule apart are all recorded, and the bounds are then exact except in the oldest granule
Sparse == (\A g, h \in given : g < h => h*1000 >= g*rr) => (\A g \in given : LET k == <<g, 0>> IN
  (InWindow(k, newest) /\ ~InOldest(k, newest)) => (\E i \in DOMAIN kept : kept[i][1] = g))
=============================================================================
