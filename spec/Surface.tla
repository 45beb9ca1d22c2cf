------------------------------ MODULE Surface -------------------------------
(* 3D surfacing (C16): a tool with a flat end follows a surface in passes.      *)
(*                                                                             *)
(* request r:                                                                  *)
(*   slabs: sequence of [x0, y0, x1, y1, a, b, axis]: a rectangle of the        *)
(*     selected surface whose height goes from a (at the low end of the axis)   *)
(*     to b (at its high end); axis 1: x, 2: y                                 *)
(*   bottom: lowest height of the surface, rad: radius of the tool             *)
(*   outline: polygon, off: the region is the outline grown by off             *)
(*   grain: largest distance between neighbouring positions                    *)
(*   row: distance between rows, down: stepdown (0: none), top: where the       *)
(*   stock starts, rapid, safe: heights for moving                             *)
(* move m: [g: 0 (rapid) | 1 (cut), s, e: << x, y, z >>]                        *)
(* surfacing state d: [z: height of the stock left at each position, down:      *)
(*   the tool came down by rapid and has not cut yet]                          *)
(* Thousandths of a millimetre.                                                *)
EXTENDS Geo, FiniteSets

Tol == 4
Clamp(v, lo, hi) == MaxV(lo, MinV(v, hi))
Short(v) == MinV(v, 30000)

Gap(v, lo, hi) == IF v < lo THEN lo - v ELSE IF v > hi THEN v - hi ELSE 0
(* The tool (radius rad) at p rests on the slab.                               *)
Touches(s, p, rad) ==
  LET gx == Short(Gap(p[1], s.x0, s.x1)) gy == Short(Gap(p[2], s.y0, s.y1)) IN
  rad >= 0 /\ gx * gx + gy * gy <= rad * rad

(* The highest point of the slab under the tool: between the values of Least   *)
(* and Most; they differ only beside the ends of a slope's sides.              *)
Beside(s, p) == IF s.axis = 1 THEN Gap(p[2], s.y0, s.y1) > 0 ELSE Gap(p[1], s.x0, s.x1) > 0
Along(s, p, rad) ==
  LET lo == IF s.axis = 1 THEN s.x0 ELSE s.y0
      hi == IF s.axis = 1 THEN s.x1 ELSE s.y1
      u == Clamp((IF s.axis = 1 THEN p[1] ELSE p[2]) + (IF s.b >= s.a THEN rad ELSE -rad), lo, hi)
  IN IF s.a = s.b THEN s.a ELSE s.a + ((s.b - s.a) * (u - lo)) \div (hi - lo)
Most(s, p, rad) == IF Beside(s, p) THEN MaxV(s.a, s.b) ELSE Along(s, p, rad)
Least(s, p, rad) == IF Beside(s, p) /\ s.a # s.b THEN MinV(s.a, s.b) ELSE Along(s, p, rad)

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
(* The tool can go down to between these heights at p.                         *)
Lowest(r, p) == MaxOf({r.bottom} \cup {Least(r.slabs[i], p, MaxV(0, r.rad - Tol)) : i \in {i \in 1 .. Len(r.slabs) : Touches(r.slabs[i], p, r.rad - Tol)}})
Highest(r, p) == MaxOf({r.bottom} \cup {Most(r.slabs[i], p, r.rad + Tol) : i \in {i \in 1 .. Len(r.slabs) : Touches(r.slabs[i], p, r.rad + Tol)}})

XY(p) == << p[1], p[2] >>
Still(m) == m.s[1] = m.e[1] /\ m.s[2] = m.e[2]

(* ---- one move ---- *)
SurfaceInit == [down |-> FALSE]
SurfaceStep(r, d, m) ==
  IF m.g = 0
  THEN << [down |-> Still(m) /\ m.e[3] < m.s[3]],
          (IF ~Still(m) /\ (m.s[3] # m.e[3] \/ m.e[3] < r.rapid - 1) THEN {"C16.traverse"} ELSE {})
          \cup (IF m.e[3] < m.s[3] /\ (~Still(m) \/ m.e[3] < r.safe - 1) THEN {"C16.rapid"} ELSE {}) >>
  ELSE << [down |-> FALSE],
          (IF m.e[3] < Lowest(r, m.e) - Tol THEN {"C16.gouge"} ELSE {})
          \cup (IF d.down /\ ~Still(m) THEN {"C16.entry"} ELSE {})
          \cup (IF ~Inside(r.outline, XY(m.e), r.off + Tol) THEN {"C16.outside"} ELSE {})
          \cup (IF Dist2(XY(m.s), XY(m.e)) > (r.grain + Tol) * (r.grain + Tol) THEN {"C16.coarse"} ELSE {}) >>

(* ---- one position p, cut to the heights zs one after the other ---- *)
RECURSIVE Steps(_, _, _, _)
Steps(r, zs, k, stock) ==
  k <= Len(zs) /\ (zs[k] < stock - r.down - Tol \/ Steps(r, zs, k + 1, MinV(stock, zs[k])))
SpotViol(r, p, zs) ==
  (IF \A k \in 1 .. Len(zs) : zs[k] > Highest(r, p) + Tol THEN {"C16.left"} ELSE {})
  \cup (IF r.down > 0 /\ Steps(r, zs, 1, r.top) THEN {"C16.step"} ELSE {})

(* ---- the region is covered: w well inside it has a visited position near by ---- *)
Needed(r, w) == Inside(r.outline, w, r.off - r.row - Tol)
                /\ Highest([r EXCEPT !.rad = @ + r.row + r.grain], w) <= 0
Covered(r, spots, w) ==
  \E i \in 1 .. Len(spots) : AbsV(spots[i][1] - w[1]) <= r.grain + Tol /\ AbsV(spots[i][2] - w[2]) <= r.row + Tol
MissViol(r, spots, w) == IF Needed(r, w) /\ ~Covered(r, spots, w) THEN {"C16.missed"} ELSE {}
=============================================================================
