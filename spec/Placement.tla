----------------------------- MODULE Placement ------------------------------
(* Programs depend only on the geometry relative to the job plane (C13): the    *)
(* programs of one part placed in several ways cut the same motion.            *)
(*                                                                            *)
(* A program is seen as                                                       *)
(*   cuts   << x1, y1, z1, x2, y2, z2, feed, run >>: fed moves that travel in   *)
(*          the plane; run: how many times the tool travelled at rapid before   *)
(*   dips   << x, y, z, feed >>: lower ends of the other fed moves             *)
(*   levels the heights of rapid travels                                      *)
EXTENDS Geo

Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Sub3(a, b) == << a[1] - b[1], a[2] - b[2], a[3] - b[3] >>
Cross3(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
SegNear3(a, b, q, d) ==
  LET v == Sub3(b, a) w == Sub3(q, a) t == Dot3(w, v) l == Dot3(v, v) c == Cross3(w, v) u == Sub3(q, b)
  IN IF t <= 0 THEN Dot3(w, w) <= d * d ELSE IF t >= l THEN Dot3(u, u) <= d * d ELSE Dot3(c, c) <= d * d * l
Lerp3(a, b, k, n) == [i \in 1 .. 3 |-> a[i] + ((b[i] - a[i]) * k) \div n]
(* q is at most d away from a cut of S with feed f (any for f = 0) in run r       *)
(* (any for r = -1).                                                     (J)  *)
CutNear(S, q, f, r, d) ==
  \E i \in 1 .. Len(S) : /\ f = 0 \/ S[i][7] = f
                         /\ r = -1 \/ S[i][8] = r
                         /\ SegNear3(<< S[i][1], S[i][2], S[i][3] >>, << S[i][4], S[i][5], S[i][6] >>, q, d)
(* All of n + 1 points from a to b are.                                  (J)  *)
CutCovers(S, a, b, n, f, r, d) == \A k \in 0 .. n : CutNear(S, Lerp3(a, b, k, n), f, r, d)

From(c) == << c[1], c[2], c[3] >>
To(c) == << c[4], c[5], c[6] >>
Ext(c) == MaxV(AbsV(c[1] - c[4]), MaxV(AbsV(c[2] - c[5]), AbsV(c[3] - c[6])))
Num(c, step) == MinV(40, 1 + Ext(c) \div step)

(* The cuts of A that B does not have.  link: how far apart two contours may be   *)
(* to be connected at any place (0: nowhere).                                 *)
Covered(c, B, ordered, tol, step) == CutCovers(B, From(c), To(c), Num(c, step), c[7], IF ordered THEN c[8] ELSE -1, tol)
Linking(c, B, link, tol) == link > 0 /\ Ext(c) <= link + tol /\ CutNear(B, From(c), 0, -1, tol) /\ CutNear(B, To(c), 0, -1, tol)
Missing(A, B, ordered, link, tol, step) ==
  {i \in 1 .. Len(A) : ~Covered(A[i], B, ordered, tol, step) /\ ~Linking(A[i], B, link, tol)}

RECURSIVE Total(_, _, _)
Total(A, S, i) == IF i > Len(A) THEN 0 ELSE (IF i \in S THEN 1 + Ext(A[i]) \div 10 ELSE 0) + Total(A, S, i + 1)

(* slack: for fillings, how many hundredths of the path may lie elsewhere, but    *)
(* no farther than the link: contours that are about to vanish.                *)
OneWay(A, B, ordered, link, slack, tol, step) ==
  LET M == Missing(A.cuts, B.cuts, ordered, link, tol, step)
      far == {i \in M : ~CutCovers(B.cuts, From(A.cuts[i]), To(A.cuts[i]), Num(A.cuts[i], step), 0, -1, link + tol)}
  IN (IF M = {} \/ (slack > 0 /\ far = {} /\ Total(A.cuts, M, 1) * 100 <= slack * Total(A.cuts, 1 .. Len(A.cuts), 1)) THEN {} ELSE {"C13.cut"})
     \cup (IF \A d \in 1 .. Len(A.dips) :
                LET p == << A.dips[d][1], A.dips[d][2], A.dips[d][3] >> IN
                \/ \E e \in 1 .. Len(B.dips) : AbsV(p[1] - B.dips[e][1]) <= tol /\ AbsV(p[2] - B.dips[e][2]) <= tol /\ AbsV(p[3] - B.dips[e][3]) <= tol
                                                /\ A.dips[d][4] = B.dips[e][4]
                \/ CutNear(B.cuts, p, 0, -1, tol + IF slack > 0 THEN link ELSE 0)
           THEN {} ELSE {"C13.plunge"})

Feeds(A) == {A.cuts[i][7] : i \in 1 .. Len(A.cuts)} \cup {A.dips[i][4] : i \in 1 .. Len(A.dips)}
Lows(A) == {MinV(A.cuts[i][3], A.cuts[i][6]) : i \in 1 .. Len(A.cuts)} \cup {A.dips[i][3] : i \in 1 .. Len(A.dips)}
(* floor: how far below the job plane, along its normal, the request reaches.     *)
(* deep: something selected there is cut.                                     *)
Reaches(A, floor, deep, tol) == (\A z \in Lows(A) : z >= floor - tol) /\ (deep => \E z \in Lows(A) : z <= floor + tol)
(* A layer that only scratches the surface may be printed or not.              *)
Bare(A, floor, skin) ==
  IF floor >= -skin \/ skin = 0 \/ (\A h \in Lows(A) : h < -skin) THEN A
  ELSE [A EXCEPT !.cuts = SelectSeq(@, LAMBDA c : MinV(c[3], c[6]) < -skin), !.dips = SelectSeq(@, LAMBDA d : d[3] < -skin)]
PlacementViol(A0, B0, ordered, link, slack, floor, deep, skin, tol, step) ==
  LET A == Bare(A0, floor, skin) B == Bare(B0, floor, skin) IN
  (IF Reaches(A, floor, deep, tol) /\ Reaches(B, floor, deep, tol) THEN {} ELSE {"C13.depth"}) \cup
  OneWay(A, B, ordered, link, slack, tol, step) \cup OneWay(B, A, ordered, link, slack, tol, step)
  \cup (IF Feeds(A) = Feeds(B) THEN {} ELSE {"C13.feed"})
  \cup (IF \A h \in {A.levels[i] : i \in 1 .. Len(A.levels)} : \E j \in 1 .. Len(B.levels) : AbsV(h - B.levels[j]) <= tol THEN {} ELSE {"C13.height"})
  \cup (IF \A h \in {B.levels[i] : i \in 1 .. Len(B.levels)} : \E j \in 1 .. Len(A.levels) : AbsV(h - A.levels[j]) <= tol THEN {} ELSE {"C13.height"})
=============================================================================
