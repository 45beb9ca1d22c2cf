-------------------------------- MODULE Geo ---------------------------------
(* Exact plane geometry on integer coordinates (thousandths of a millimetre). *)
(* A polygon is a sequence of points << x, y >> (closed, first point not      *)
(* repeated); a path is a sequence of segments << x1, y1, x2, y2 >>.          *)
(*                                                                            *)
(* TLC evaluates the operators marked (J) by java/Geo.java, which computes    *)
(* the same values with wider integers; MC_Geo compares both.                 *)
EXTENDS Integers, Sequences

AbsV(v) == IF v < 0 THEN -v ELSE v
MinV(a, b) == IF a < b THEN a ELSE b
MaxV(a, b) == IF a > b THEN a ELSE b
Dist2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])

(* q is at most d away from the segment a b.                             (J)  *)
SegNear(a, b, q, d) ==
  LET vx == b[1] - a[1]  vy == b[2] - a[2]
      wx == q[1] - a[1]  wy == q[2] - a[2]
      t == wx * vx + wy * vy
      l == vx * vx + vy * vy
      c == vx * wy - vy * wx
  IN d >= 0 /\ IF t <= 0 THEN wx * wx + wy * wy <= d * d
               ELSE IF t >= l THEN Dist2(q, b) <= d * d
               ELSE c * c <= d * d * l

(* q is at most d away from the boundary of P.                           (J)  *)
PolyNear(P, q, d) == \E i \in 1 .. Len(P) : SegNear(P[i], P[(i % Len(P)) + 1], q, d)

(* q is at most d away from a path.                                      (J)  *)
PathNear(S, q, d) == \E i \in 1 .. Len(S) : SegNear(<< S[i][1], S[i][2] >>, << S[i][3], S[i][4] >>, q, d)

(* q lies inside P: an odd number of sides crosses the ray to the right.  (J)  *)
RECURSIVE Crossings(_, _, _)
Crossings(P, q, i) ==
  IF i > Len(P) THEN 0
  ELSE LET a == P[i] b == P[(i % Len(P)) + 1]
           c == (b[1] - a[1]) * (q[2] - a[2]) - (b[2] - a[2]) * (q[1] - a[1])
       IN Crossings(P, q, i + 1) +
          (IF (a[2] > q[2]) = (b[2] > q[2]) THEN 0
           ELSE IF b[2] > a[2] THEN (IF c > 0 THEN 1 ELSE 0) ELSE (IF c < 0 THEN 1 ELSE 0))
In(P, q) == Crossings(P, q, 1) % 2 = 1

(* q lies inside P grown by d (shrunk for negative d), with rounded corners.  *)
Inside(P, q, d) == IF d >= 0 THEN In(P, q) \/ PolyNear(P, q, d) ELSE In(P, q) /\ ~PolyNear(P, q, -d)

(* The point k/n of the way from a to b.                                      *)
Lerp(a, b, k, n) == << a[1] + ((b[1] - a[1]) * k) \div n, a[2] + ((b[2] - a[2]) * k) \div n >>

(* Heights of the stock at the points pts after cutting from a to b at z with *)
(* a tool reaching r.                                                    (J)  *)
Milled(h, pts, a, b, r, z) ==
  [i \in 1 .. Len(pts) |-> IF h[i] > z /\ SegNear(a, b, pts[i], r) THEN z ELSE h[i]]

(* The points that such a cut would lower by more than drop.             (J)  *)
Engaged(h, pts, a, b, r, z, drop) ==
  {i \in 1 .. Len(pts) : h[i] - z > drop /\ SegNear(a, b, pts[i], r)}

(* The distance from p to a is smaller than that from p to b by more than m.   *)
(*                                                                       (J)  *)
Nearer(p, a, b, m) ==
  LET A == Dist2(p, a) B == Dist2(p, b) r == B - A - m * m
  IN r > 0 /\ r * r > 4 * m * m * A
=============================================================================
