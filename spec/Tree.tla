-------------------------------- MODULE Tree --------------------------------
(* Nested contours and the sequences they are cut in (C14).                    *)
(* tree: sequence of [parent: number of the contour around it (0: none),        *)
(*   closed]; sequences: sequences of numbers of contours                      *)
EXTENDS Integers, Sequences, FiniteSets

Nodes(tr) == 1 .. Len(tr)
Leaves(tr) == {n \in Nodes(tr) : \A m \in Nodes(tr) : tr[m].parent # n}
Open(tr) == {n \in Leaves(tr) : ~tr[n].closed}

(* An open leaf is on offer as long as there is one (0: nothing on offer).      *)
OfferViol(tr, offer) ==
  IF Open(tr) = {} THEN (IF offer # 0 THEN {"C14.offer"} ELSE {})
  ELSE IF offer \in Open(tr) THEN {} ELSE {"C14.offer"}

RECURSIVE Chain(_, _, _)
(* From n outwards up to the first contour that was cut already. *)
Chain(tr, n, cut) == IF n = 0 \/ n \in cut THEN << >> ELSE << n >> \o Chain(tr, tr[n].parent, cut)

RECURSIVE Root(_, _)
Root(tr, n) == IF tr[n].parent = 0 THEN n ELSE Root(tr, tr[n].parent)

Items(s) == {s[i] : i \in 1 .. Len(s)}
RECURSIVE Total(_)
Total(ss) == IF ss = << >> THEN 0 ELSE Len(Head(ss)) + Total(Tail(ss))

(* cut: contours of the sequences before *)
RECURSIVE OrderViol(_, _, _)
OrderViol(tr, ss, cut) ==
  IF ss = << >> THEN {}
  ELSE LET s == Head(ss) IN
       (IF s = << >> THEN {"C14.empty"}
        ELSE (IF s[1] \notin Leaves(tr) THEN {"C14.start"} ELSE {})
             \cup (IF s # Chain(tr, s[1], cut) THEN {"C14.nested"} ELSE {})
             \cup (IF \E l \in Leaves(tr) \ cut : Root(tr, l) = Root(tr, s[1]) /\ Len(Chain(tr, l, cut)) > Len(s) THEN {"C14.longest"} ELSE {}))
       \cup OrderViol(tr, Tail(ss), cut \cup Items(s))

SeqViol(tr, ss) ==
  (IF UNION {Items(ss[i]) : i \in 1 .. Len(ss)} # Nodes(tr) THEN {"C14.left"} ELSE {})
  \cup (IF Total(ss) # Len(tr) THEN {"C14.once"} ELSE {})
  \cup OrderViol(tr, ss, {})
=============================================================================
