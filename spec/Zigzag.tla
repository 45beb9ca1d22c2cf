------------------------------ MODULE Zigzag --------------------------------
(* Zig-zag filling of a region and walks along its boundaries (C15).            *)
(*                                                                            *)
(* Part 1, a boundary: a ring of points (closed, first point not repeated),     *)
(* some of them linked to it.  State: the linked points not used yet.           *)
(* Part 2, a region [outers, inners: polygons] filled by sequences of points.   *)
EXTENDS Geo, FiniteSets

(* ------------------------------ boundaries ------------------------------- *)
Ring(P, i) == P[((i - 1) % Len(P)) + 1]

(* From position i of the ring in direction d to the first unused point that   *)
(* is not the point at i itself (<< >>: there is none).                        *)
RECURSIVE Forth(_, _, _, _, _)
Forth(P, i, d, unused, n) ==
  IF n = 0 THEN << >>
  ELSE LET p == Ring(P, i + d + Len(P)) IN
       IF p \in unused THEN << p >>
       ELSE LET r == Forth(P, i + d + Len(P), d, unused, n - 1) IN IF r = << >> THEN << >> ELSE << p >> \o r

(* The ring of a polygon with points on its sides.                             *)
OnSide(a, b, q) == q # a /\ q # b /\ (b[1] - a[1]) * (q[2] - a[2]) = (b[2] - a[2]) * (q[1] - a[1])
                   /\ MinV(a[1], b[1]) <= q[1] /\ q[1] <= MaxV(a[1], b[1]) /\ MinV(a[2], b[2]) <= q[2] /\ q[2] <= MaxV(a[2], b[2])
RECURSIVE Sorted(_, _)
Sorted(a, S) == IF S = {} THEN << >>
                ELSE LET q == CHOOSE q \in S : \A p \in S : Dist2(a, q) <= Dist2(a, p) IN << q >> \o Sorted(a, S \ {q})
RECURSIVE Expand(_, _, _)
Expand(poly, S, i) ==
  IF i > Len(poly) THEN << >>
  ELSE LET a == poly[i] b == poly[(i % Len(poly)) + 1] IN
       << a >> \o Sorted(a, {q \in S : OnSide(a, b, q)}) \o Expand(poly, S, i + 1)

Position(P, p) == CHOOSE i \in 1 .. Len(P) : P[i] = p
(* The walks a query may answer with (unused: before the query, with p). *)
Walks(P, p, unused) == {Forth(P, Position(P, p), d, unused \ {p}, Len(P)) : d \in {1, -1}} \ {<< >>}

RECURSIVE Squeeze(_)
Squeeze(s) == IF Len(s) < 2 THEN s
              ELSE IF s[1] = s[2] THEN Squeeze(Tail(s)) ELSE << s[1] >> \o Squeeze(Tail(s))
(* The walk without points that stay where they are, p included at its start. *)
Walked(p, s) == Squeeze(<< p >> \o s)

(* none: the answer was that nothing is left *)
WalkViol(P, p, unused, none, s) ==
  LET rest == unused \ {p} IN
  IF none THEN (IF rest # {} THEN {"C15.none"} ELSE {})
  ELSE IF rest = {} THEN {"C15.used"}
  ELSE IF s = << >> THEN {"C15.empty"}
  ELSE IF s[Len(s)] \notin rest THEN {"C15.used"}
  ELSE IF \E k \in 1 .. Len(s) - 1 : s[k] \in rest THEN {"C15.passed"}
  ELSE IF \E w \in Walks(P, p, unused) : Walked(p, s) = Walked(p, w) THEN {}
  ELSE {"C15.walk"}

(* -------------------------------- filling -------------------------------- *)
(* q lies in the region, at least m away from its boundaries (m < 0: at most    *)
(* -m outside).                                                               *)
Region(R, q, m) ==
  /\ \E k \in 1 .. Len(R.outers) : Inside(R.outers[k], q, -m)
  /\ \A k \in 1 .. Len(R.inners) : IF m >= 0 THEN ~Inside(R.inners[k], q, m) ELSE ~(In(R.inners[k], q) /\ ~PolyNear(R.inners[k], q, -m))

AlongOne(P, a, b, tol) == \A k \in 0 .. 8 : PolyNear(P, Lerp(a, b, k, 8), tol + 2)
Along(R, a, b, tol) ==
  \/ \E k \in 1 .. Len(R.outers) : AlongOne(R.outers[k], a, b, tol)
  \/ \E k \in 1 .. Len(R.inners) : AlongOne(R.inners[k], a, b, tol)

Min0(S) == CHOOSE x \in S : \A y \in S : x <= y
Max0(S) == CHOOSE x \in S : \A y \in S : x >= y
Ys(P) == {P[i][2] : i \in 1 .. Len(P)}
AllYs(R) == UNION {Ys(R.outers[k]) : k \in 1 .. Len(R.outers)}

RECURSIVE MovesOf(_)
MovesOf(s) == IF Len(s) < 2 THEN << >>
              ELSE (IF s[1] = s[2] THEN << >> ELSE << << s[1][1], s[1][2], s[2][1], s[2][2] >> >>) \o MovesOf(Tail(s))
A(m) == << m[1], m[2] >>
B(m) == << m[3], m[4] >>

(* The moves of all sequences: [m: move, link: leads along a boundary].         *)
RECURSIVE All(_, _, _)
All(R, ss, tol) ==
  IF ss = << >> THEN << >>
  ELSE LET ms == MovesOf(Head(ss)) IN
       [i \in 1 .. Len(ms) |-> [m |-> ms[i], link |-> Along(R, A(ms[i]), B(ms[i]), tol), last |-> i = Len(ms)]] \o All(R, Tail(ss), tol)

OnLattice(y, y0, step) == LET r == (y - y0) % step IN r <= 2 \/ r >= step - 2
Near1(p, q) == AbsV(p[1] - q[1]) <= 1 /\ AbsV(p[2] - q[2]) <= 1

(* xs: where the scan lines are looked at; tol: how far the boundaries of R may  *)
(* be from those that were filled.                                             *)
FillViol(R, step, ss, xs, tol) ==
  LET M == All(R, ss, tol)
      H == {M[i].m[2] : i \in {j \in 1 .. Len(M) : ~M[j].link}}
      lo == Min0(AllYs(R))  hi == Max0(AllYs(R))
      Piece(i) == LET m == M[i].m IN
        ~M[i].link /\ m[2] = m[4] /\ \A k \in 0 .. 8 : Region(R, Lerp(A(m), B(m), k, 8), -tol - 2)
      Off == {i \in 1 .. Len(M) : ~M[i].link /\ ~Piece(i)}
  IN (IF Off # {} THEN {"C15.outside"} ELSE {})
     \cup
     (IF H = {} THEN (IF \A k \in 1 .. Len(R.outers) : Max0(Ys(R.outers[k])) - Min0(Ys(R.outers[k])) <= step THEN {} ELSE {"C15.spacing"})
      ELSE LET y0 == Min0(H)
               first == y0 - step * ((y0 - lo) \div step)
               Heights == {first + step * k : k \in 0 .. ((hi - first) \div step)}
               Cover(q) == Cardinality({i \in 1 .. Len(M) : ~M[i].link /\ SegNear(A(M[i].m), B(M[i].m), q, 3)})
           IN (IF \E y \in H : ~OnLattice(y, y0, step) THEN {"C15.spacing"} ELSE {})
              \cup (IF \E y \in Heights : \E k \in 1 .. Len(xs) :
                       LET q == << xs[k], y >> IN Region(R, q, 5 + tol) /\ Cover(q) # 1
                    THEN {"C15.cut"} ELSE {}))
     \cup
     (* A walk stops at the first end point that is not used yet: where two      *)
     (* links meet, no scan line cut later may end.                              *)
     (IF \E i \in 1 .. Len(M) - 1 : M[i].link /\ M[i + 1].link /\ ~M[i].last
            /\ (\E j \in i + 2 .. Len(M) : ~M[j].link /\ (Near1(A(M[j].m), B(M[i].m)) \/ Near1(B(M[j].m), B(M[i].m))))
            /\ ~(\E j \in i + 2 .. Len(M) : ~M[j].link /\ Near1(A(M[j].m), B(M[i].m)) /\ \A k \in i + 1 .. j - 1 : M[k].link /\ Near1(B(M[k].m), B(M[i].m)))
            /\ ~(\E j \in 1 .. i : ~M[j].link /\ (Near1(A(M[j].m), B(M[i].m)) \/ Near1(B(M[j].m), B(M[i].m))))
      THEN {"C15.passed"} ELSE {})
=============================================================================
