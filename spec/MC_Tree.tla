------------------------------ MODULE MC_Tree -------------------------------
(* Every history of N branchings and closings; the sequences are extracted      *)
(* after every step.  bug # "none": deviations.                                *)
EXTENDS Tree, TLC, Json
CONSTANTS N, MaxKids, Bugs, PrintHist

VARIABLES bug, tr, hist, bad
vars == << bug, tr, hist, bad >>

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Offer(t) ==
  LET O == IF bug = "lockedoffer" THEN Leaves(t) ELSE IF bug = "parentoffer" THEN {n \in Nodes(t) : ~t[n].closed} ELSE Open(t) IN
  IF O = {} THEN 0 ELSE IF bug = "firstonly" /\ Min(Leaves(t)) \notin O THEN 0 ELSE Min(O)

RECURSIVE Extract(_, _, _)
Extract(t, ls, cut) ==
  IF ls = {} THEN << >>
  ELSE LET len(l) == Len(Chain(t, l, cut))
           l == CHOOSE l \in ls : \A k \in ls : IF bug = "shortest" THEN len(l) <= len(k) ELSE IF bug = "anyorder" THEN l <= k ELSE len(l) >= len(k)
           s == Chain(t, l, IF bug = "again" THEN {} ELSE cut)
           r == IF bug = "outin" THEN [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]] ELSE IF bug = "noroot" /\ Len(s) > 1 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
       IN << r >> \o Extract(t, ls \ {l}, cut \cup Items(s))
Sequences_(t) == IF bug = "dropshort" THEN SelectSeq(Extract(t, Leaves(t), {}), LAMBDA s : Len(s) > 1 \/ Len(t) = 1) ELSE Extract(t, Leaves(t), {})

Init == bug \in Bugs /\ tr = << [parent |-> 0, closed |-> FALSE] >> /\ hist = << >> /\ bad = {}

Step(n, k) ==
  /\ tr' = IF k < 0 THEN [tr EXCEPT ![n].closed = TRUE]
           ELSE tr \o [i \in 1 .. k |-> [parent |-> n, closed |-> FALSE]]
  /\ hist' = Append(hist, [n |-> n, k |-> k])
  /\ bad' = bad \cup OfferViol(tr', Offer(tr')) \cup SeqViol(tr', Sequences_(tr'))
  /\ UNCHANGED bug
  /\ IF Len(hist') = N /\ PrintHist THEN PrintT(ToJson([kind |-> "hist", hist |-> hist'])) ELSE TRUE
  /\ IF bug # "none" /\ bad' # {} /\ bad = {} THEN PrintT(ToJson([kind |-> "bug", bug |-> bug, bad |-> bad'])) ELSE TRUE

Next == Len(hist) < N /\ \E n \in Nodes(tr) : \E k \in -1 .. MaxKids : Step(n, k)
Spec == Init /\ [][Next]_vars
Safe == bug = "none" => bad = {}
=============================================================================
