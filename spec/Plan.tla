-------------------------------- MODULE Plan --------------------------------
(* Planned moves against printed blocks.                                     *)
(* planned move: [g: 0 10 20 30, k: which of x y z are planned (end),        *)
(*   ks: which are known at the start, s, e, m, c: << x, y, z >> start, end,  *)
(*   middle and centre in 1e-5 units]                                        *)
(* Printed coordinates are thousandths; both are compared at 1e-5.           *)
EXTENDS Rs274

Abs(v) == IF v < 0 THEN -v ELSE v
Max2(a, b) == IF a > b THEN a ELSE b
Half == 51                                   \* half of the last decimal, plus the rounding of the record
Near(t, p) == Abs(t * 100 - p) <= Half

(* Scale a set of small vectors so that products fit.                        *)
Ext(v) == Max2(Abs(v[1]), Abs(v[2]))
Q(n) == IF n <= 20000 THEN 1 ELSE n \div 20000 + 1
Sc(v, q) == << v[1] \div q, v[2] \div q >>
Cross(a, b) == a[1] * b[2] - a[2] * b[1]
Norm2(a) == a[1] * a[1] + a[2] * a[2]
Sub(a, b) == << a[1] - b[1], a[2] - b[2] >>

Axes == << "X", "Y", "Z" >>
Printed(m, b) == << ToX(m, b), ToY(m, b), ToZ(m, b) >>
KnownAt(m, b) == << m.kx \/ HasWord(b, "X"), m.ky \/ HasWord(b, "Y"), m.kz \/ HasWord(b, "Z") >>

(* Both distances to the centre agree: |a|^2 and |b|^2 differ by at most     *)
(* about 2 r tol.                                                            *)
SameRadius(a, b, tol) ==
  LET q == Q(Max2(Ext(a), Ext(b)))
      a1 == Sc(a, q) b1 == Sc(b, q)
      t == tol \div q + 2
      r == Max2(Ext(a1), Ext(b1))
  IN Abs(Norm2(a1) - Norm2(b1)) <= 4 * (r + t) * t

(* The turn from -> to around the origin is less than half.  The sign of      *)
(* from x (to - from) decides; both factors are scaled on their own.          *)
Short(g, from, to) ==
  LET ch == Sub(to, from)
      x == Cross(Sc(from, Q(Ext(from))), Sc(ch, Q(Ext(ch))))
  IN IF g = 20 THEN x < 0 ELSE x > 0
(* Turn direction: a clockwise arc has its middle on the left of the chord.   *)
(* If the arc is too flat to see that, the turn from the start to the middle  *)
(* is far less than half.                                                     *)
SideOk(p) ==
  LET ch == Sub(p.e, p.s) md == Sub(p.m, p.s)
      c1 == Sc(ch, Q(Ext(ch))) m1 == Sc(md, Q(Ext(md)))
      x == Cross(c1, m1)
  IN IF Abs(x) > 2 * (Ext(c1) + Ext(m1)) + 4
     THEN (IF p.g = 20 THEN x > 0 ELSE x < 0)
     ELSE Short(p.g, Sub(p.s, p.c), Sub(p.m, p.c))
(* The ends are close together as seen from the centre.                       *)
Close(from, to) ==
  LET q == 4 * Q(Max2(Ext(from), Ext(to))) a == Sc(from, q) b == Sc(to, q)
  IN Norm2(Sub(b, a)) * 4 < Norm2(a)

ArcViol(p, m, b) ==
  LET s == << m.px, m.py >>
      e == << ToX(m, b), ToY(m, b) >>
      c == << m.px + b.i, m.py + b.j >>                  \* printed centre
      ps == Sub(p.s, p.c) pe == Sub(p.e, p.c)             \* planned, from the centre
      ts == << -b.i, -b.j >> te == Sub(e, c)
      closedP == Sub(p.s, p.e) = << 0, 0 >>
      closedT == s = e
  IN (IF Abs(b.i * 100 - (p.c[1] - p.s[1])) > Half \/ Abs(b.j * 100 - (p.c[2] - p.s[2])) > Half THEN {"C11.centre"} ELSE {})
     \cup (IF ~SameRadius(ts, te, 3) THEN {"C11.radius"} ELSE {})
     \cup (IF ~SameRadius(ps, pe, 20) \/ ~SameRadius(ps, Sub(p.m, p.c), 20) THEN {"C11.plan_radius"} ELSE {})
     \cup (IF closedT # closedP THEN {"C11.full_turn"} ELSE {})
     \cup (IF ~closedP /\ ~SideOk(p) THEN {"C11.direction"} ELSE {})
     \cup (IF ~closedP /\ ~closedT /\ Close(ts, te) /\ Short(p.g, ts, te) # Short(p.g, ps, pe)
           THEN {"C11.turn"} ELSE {})

(* A printed block against the planned move it stands for.                   *)
MoveViol(p, m, b) ==
  LET t == Printed(m, b) kn == KnownAt(m, b) IN
  (IF Mode(m, b) # p.g THEN {"C11.kind"} ELSE {})
  \cup (IF \E a \in 1 .. 3 : p.k[a] /\ ~(kn[a] /\ Near(t[a], p.e[a])) THEN {"C11.end"} ELSE {})
  \cup (IF \E a \in 1 .. 3 : ~p.k[a] /\ HasWord(b, Axes[a]) THEN {"C11.extra"} ELSE {})
  \cup (IF Mode(m, b) \in {20, 30} /\ p.g \in {20, 30} THEN ArcViol(p, m, b) ELSE {})

(* Consecutive planned moves join.                                           *)
JoinViol(p, prev) ==
  IF \E a \in 1 .. 3 : p.ks[a] /\ prev.k[a] /\ Abs(p.s[a] - prev.e[a]) > 2 THEN {"C11.join"} ELSE {}
=============================================================================
