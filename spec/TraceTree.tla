----------------------------- MODULE TraceTree ------------------------------
(* Two kinds of traces.                                                        *)
(* kind "tree": steps [n, k: as in MC_Tree, offer, sequences] on a real tree.   *)
(* kind "pocket": loops, the closed contours of a pocket without islands at     *)
(*   one depth, in the order they are cut; how they are nested follows from     *)
(*   where they lie.                                                           *)
EXTENDS Tree, Geo, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TF).traces
VARIABLES t, n, tr, bad
vars == << t, n, tr, bad >>
T == D[t]

RECURSIVE SeqOf(_, _)
SeqOf(S, at) == IF S = {} THEN << >> ELSE LET c == CHOOSE x \in S : TRUE IN << [c |-> c, n |-> at] >> \o SeqOf(S \ {c}, at)
Log(S, at) == IF Len(bad) > 10 THEN bad ELSE bad \o SeqOf(S, at)

Init == t \in 1 .. Len(D) /\ n = 0 /\ bad = << >> /\ tr = << [parent |-> 0, closed |-> FALSE] >>

Step ==
  /\ T.kind = "tree" /\ n < Len(T.steps) /\ n' = n + 1 /\ UNCHANGED t
  /\ LET s == T.steps[n + 1]
         now == IF s.k < 0 THEN [tr EXCEPT ![s.n].closed = TRUE] ELSE tr \o [i \in 1 .. s.k |-> [parent |-> s.n, closed |-> FALSE]]
     IN tr' = now /\ bad' = Log(OfferViol(now, s.offer) \cup SeqViol(now, s.sequences), n + 1)
FinishTree ==
  /\ T.kind = "tree" /\ n = Len(T.steps) /\ n' = n + 1 /\ UNCHANGED << t, tr, bad >>
  /\ PrintT(ToJson([t |-> t, nodes |-> Len(tr), bad |-> bad]))

(* Loop i lies within loop j. *)
Within(i, j) == i # j /\ \A k \in 1 .. Len(T.loops[i]) : Inside(T.loops[j], T.loops[i][k], 2)
Count == Len(T.loops)
Around == [i \in 1 .. Count |-> {j \in 1 .. Count : Within(i, j)}]
TreeOf(A) == [i \in 1 .. Count |->
   LET S == {j \in A[i] : A[j] = A[i] \ {j}} IN
   [parent |-> IF A[i] = {} THEN 0 ELSE IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE, closed |-> TRUE]]
RECURSIVE Split(_, _, _)
(* The order of the loops, cut in front of every innermost loop. *)
Split(x, i, cur) ==
  IF i > Count THEN (IF cur = << >> THEN << >> ELSE << cur >>)
  ELSE IF i \in Leaves(x) /\ cur # << >> THEN << cur >> \o Split(x, i + 1, << i >>)
  ELSE Split(x, i + 1, Append(cur, i))

Pocket ==
  /\ T.kind = "pocket" /\ n = 0 /\ n' = 1 /\ UNCHANGED << t, bad >>
  /\ LET A == Around x == TreeOf(A) twice == \E i, j \in 1 .. Count : j \in A[i] /\ i \in A[j] IN
     /\ tr' = x
     /\ PrintT(ToJson([t |-> t, nodes |-> Count,
          bad |-> Log(IF twice THEN {"C14.once"}
                      ELSE SeqViol(x, Split(x, 1, << >>))
                           \cup (IF \E i \in 1 .. Count : A[i] # {} /\ x[i].parent = 0 THEN {"C14.crossing"} ELSE {}), 1)]))

Next == Step \/ FinishTree \/ Pocket
Spec == Init /\ [][Next]_vars
=============================================================================
