------------------------------- MODULE Drill --------------------------------
(* What a drilling operation has to do (C07).                                  *)
(*                                                                             *)
(* request r: [holes: sequence of << x, y >> in the order selected, depth (as   *)
(*   a positive number), safe: height for moving between holes, firsts: how many *)
(*   of the holes belong to the shape selected first]                           *)
(* move m: [g: 0 (rapid) | 1 (feed), s, e: << x, y, z >>, first: nothing known  *)
(*   about x and y before]                                                      *)
(* drilling state d: [left: numbers of holes not drilled yet, at: hole being    *)
(*   drilled (0: none), last: hole drilled before (0: none), n: holes drilled]  *)
(* All numbers are thousandths of a millimetre.                                *)
EXTENDS Geo, FiniteSets

DrillInit(r) == [left |-> 1 .. Len(r.holes), at |-> 0, last |-> 0, n |-> 0]

Tol == 1
XY(p) == << p[1], p[2] >>
Same(p, q) == AbsV(p[1] - q[1]) <= Tol /\ AbsV(p[2] - q[2]) <= Tol
Vertical(m) == m.s[1] = m.e[1] /\ m.s[2] = m.e[2]

(* The holes that may be drilled at p: the one that was not drilled yet.       *)
There(r, d, p) == {h \in d.left : Same(r.holes[h], XY(p))}
(* Positions are known up to the output precision only.                        *)
Late(r, d, h) ==
  IF d.last = 0 THEN \A k \in 1 .. r.firsts : ~Same(r.holes[h], r.holes[k])
  ELSE \E g \in d.left : Nearer(r.holes[d.last], r.holes[g], r.holes[h], 4)

(* One move: << drilling state, violated clauses >>                            *)
DrillStep(r, d, m) ==
  IF m.g = 0
  THEN IF ~Vertical(m)
       THEN << [d EXCEPT !.at = 0], (IF m.s[3] < r.safe - Tol \/ m.e[3] # m.s[3] THEN {"C07.traverse"} ELSE {}) >>
       ELSE << d, (IF m.e[3] > m.s[3] \/ m.e[3] >= -Tol THEN {} ELSE {"C07.rapid"}) >>
  ELSE IF ~Vertical(m) THEN << d, {"C07.sideways"} >>
  ELSE IF m.e[3] >= m.s[3] THEN << d, {} >>
  ELSE LET T == There(r, d, m.s) IN
       IF T = {} THEN << d, {IF \E h \in 1 .. Len(r.holes) : Same(r.holes[h], XY(m.s)) THEN "C07.again" ELSE "C07.elsewhere"} >>
       ELSE LET h == CHOOSE h \in T : TRUE IN
            << [left |-> d.left \ {h}, at |-> h, last |-> h, n |-> d.n + 1],
               (IF AbsV(m.e[3] + r.depth) > Tol THEN {"C07.depth"} ELSE {})
               \cup (IF m.s[3] > r.safe + Tol \/ m.s[3] < -Tol THEN {"C07.start"} ELSE {})
               \cup (IF Late(r, d, h) THEN {"C07.order"} ELSE {}) >>

DrillEnd(d) == IF d.left = {} THEN {} ELSE {"C07.missed"}
=============================================================================
