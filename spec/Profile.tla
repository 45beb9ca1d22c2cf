------------------------------- MODULE Profile -------------------------------
(* What a profile operation has to cut.                                       *)
(*                                                                            *)
(* request p: [items: sequence of [outer: polygon, holes: polygons, z],       *)
(*   ro, ri: offset distances to the outer side (None: not cut), sd: stepdown *)
(*   (0: none), tabs: [kind: "none" | "wire" | "edge", count, spacing, width, *)
(*   height, only: "" | "line" | "arc"]]                                      *)
(*                                                                            *)
(* A pass is a run of cutting moves between rapids:                            *)
(*   [s, e: << x, y, z >>, k: "line" | "arc", c: arc centre, dir: 2 | 3,       *)
(*    a, b: distances from the start of the pass along its lateral path,       *)
(*    id: number of the printed move]                                          *)
(* All numbers are thousandths of a millimetre.                                *)
EXTENDS Geo, FiniteSets

None == -1000000000
Ids(S) == 1 .. Len(S)
RECURSIVE Flat(_)
Flat(S) == IF S = << >> THEN << >> ELSE Head(S) \o Flat(Tail(S))

(* ---- C04: the outlines to cut, in order: holes first ---- *)
HolesOf(p) == Flat([i \in Ids(p.items) |-> [h \in Ids(p.items[i].holes) |->
                 [P |-> p.items[i].holes[h], rho |-> p.ri, z |-> p.items[i].z, group |-> i]]])
OutersOf(p) == [i \in Ids(p.items) |-> [P |-> p.items[i].outer, rho |-> p.ro, z |-> p.items[i].z, group |-> 1000 + i]]
Expected(p) == (IF p.ri = None THEN << >> ELSE HolesOf(p)) \o (IF p.ro = None THEN << >> ELSE OutersOf(p))

(* q lies at the requested distance on the requested side of the outline.     *)
OnOffset(o, q, tol) ==
  /\ PolyNear(o.P, q, AbsV(o.rho) + tol)
  /\ ~PolyNear(o.P, q, AbsV(o.rho) - tol - 1)
  /\ AbsV(o.rho) > tol => (In(o.P, q) <=> o.rho < 0)

Lateral(mv) == mv.s[1] # mv.e[1] \/ mv.s[2] # mv.e[2]
Lat(ps) == SelectSeq(ps, Lateral)
PathOf(ps) == LET l == Lat(ps) IN [i \in Ids(l) |-> << l[i].s[1], l[i].s[2], l[i].e[1], l[i].e[2] >>]
Low(ps) == CHOOSE z \in {MinV(ps[i].s[3], ps[i].e[3]) : i \in Ids(ps)} : \A i \in Ids(ps) : ps[i].s[3] >= z /\ ps[i].e[3] >= z

Samples(s, e, d) == MaxV(AbsV(e[1] - s[1]), AbsV(e[2] - s[2])) \div d + 1

(* The passes that cut o: everything at the offset distance, closed, all the   *)
(* way around (edge: points that have to be passed).                          *)
FollowViol(o, ps, edge, tol, d) ==
  LET l == Lat(ps) path == PathOf(ps) IN
  IF l = << >> THEN {"C04.nothing"} ELSE
  (IF \E i \in Ids(l) : \E k \in 0 .. Samples(l[i].s, l[i].e, d) :
        ~OnOffset(o, Lerp(l[i].s, l[i].e, k, Samples(l[i].s, l[i].e, d)), tol) THEN {"C04.offset"} ELSE {})
  \cup (IF AbsV(l[1].s[1] - l[Len(l)].e[1]) > 2 \/ AbsV(l[1].s[2] - l[Len(l)].e[2]) > 2 THEN {"C04.open"} ELSE {})
  \cup (IF \E i \in Ids(edge) : OnOffset(o, edge[i], 3) /\ ~PathNear(path, edge[i], tol + 4) THEN {"C04.around"} ELSE {})
  \cup (IF \E i \in Ids(l) : AbsV(l[i].s[3] - l[i].e[3]) > 1 THEN {"C04.slope"} ELSE {})

(* The ends of all moves of a pass lie on the offset outline.                 *)
Follows(o, ps, tol) ==
  LET l == Lat(ps) IN
  \A i \in Ids(l) : OnOffset(o, l[i].s, tol) /\ OnOffset(o, l[i].e, tol)

(* ---- C05: layers ---- *)
(* A pass at z after a pass at before (0: none yet).                           *)
LayerViol(p, o, before, z) ==
  (IF z < o.z - 1 THEN {"C05.toodeep"} ELSE {})
  \cup (IF p.sd > 0 /\ before - z > p.sd + 2 THEN {"C05.stepdown"} ELSE {})
  \cup (IF p.sd = 0 /\ AbsV(z - o.z) > 1 THEN {"C05.single"} ELSE {})
  \cup (IF z >= before /\ ~(before = 0 /\ o.z >= 0) THEN {"C05.order"} ELSE {})

(* ---- C06: tabs ---- *)
(* Maximal runs of one line or one arc: the edges of the path.                 *)
SameEdge(first, a, b) ==
  IF a.k # b.k THEN FALSE
  ELSE IF a.k = "arc" THEN a.dir = b.dir /\ SegNear(a.c, a.c, b.c, 6)
  ELSE SegNear(first.s, b.e, b.s, 3)

RECURSIVE Whole(_, _, _)
(* Sequence of << first index, last index >> over lateral moves l from i on.   *)
Whole(l, i, from) ==
  IF i = Len(l) THEN << << from, i >> >>
  ELSE IF SameEdge(l[from], l[i], l[i + 1]) THEN Whole(l, i + 1, from)
  ELSE << << from, i >> >> \o Whole(l, i + 1, i + 1)
(* A single joint at one height within such a run is a joint of two edges (the *)
(* offset outline has collinear edges), not the end of a tab.                  *)
Joints(l, r) == {i \in r[1] .. r[2] - 1 : l[i].id # l[i + 1].id /\ l[i].e[3] = l[i + 1].s[3]}
Runs(l) ==
  LET w == Whole(l, 1, 1) IN
  Flat([k \in Ids(w) |-> LET J == Joints(l, w[k]) IN
          IF Cardinality(J) = 1 THEN LET i == CHOOSE i \in J : TRUE IN << << w[k][1], i >>, << i + 1, w[k][2] >> >>
          ELSE << w[k] >>])

(* Spans << from, to >> along the pass of length L.                            *)
WireSpans(tabs, L, from) ==
  UNION {LET c == from + (k * L) \div tabs.count h == tabs.width \div 2 IN
         {<< c - h + j * L, c + h + j * L >> : j \in -2 .. 1} : k \in 0 .. tabs.count - 1}

EdgeSpans(tabs, l, runs) ==
  UNION {LET a == l[runs[r][1]].a b == l[runs[r][2]].b n == (b - a) \div tabs.spacing h == tabs.width \div 2 IN
         IF n = 0 \/ (tabs.only # "" /\ l[runs[r][1]].k # tabs.only) THEN {}
         ELSE {<< a + ((b - a) \div (n + 1)) * k + (((b - a) % (n + 1)) * k) \div (n + 1) - h,
                  a + ((b - a) \div (n + 1)) * k + (((b - a) % (n + 1)) * k) \div (n + 1) + h >> : k \in 1 .. n}
         : r \in Ids(runs)}
(* Edges whose number of tabs hangs on the last decimal are not judged.        *)
Unsure(tabs, l, runs, x) ==
  \E r \in Ids(runs) : LET a == l[runs[r][1]].a b == l[runs[r][2]].b IN
     /\ a - 5 <= x /\ x <= b + 5
     /\ LET m == (b - a) % tabs.spacing IN b - a > tabs.spacing - 10 /\ (m < 12 \/ m > tabs.spacing - 12)

InSpans(S, x, g) == \E s \in S : s[1] - g <= x /\ x <= s[2] + g

(* Where a pass may count the tabs of an outline from. The kernel may begin the *)
(* pass of an outline with splines at another corner once the tabs are lifted:  *)
(* their places tell where it began before.                                     *)
Origins(p, l) ==
  IF p.tabs.kind # "wire" \/ ~p.turned THEN {0}
  ELSE {0} \cup {IF l[i + 1].s[3] > l[i].e[3] THEN l[i + 1].a + p.tabs.width \div 2 ELSE l[i].b - p.tabs.width \div 2
                : i \in {i \in 1 .. Len(l) - 1 : l[i].e[3] # l[i + 1].s[3]}}

TabViolFrom(p, o, ps, tol, from) ==
  LET l == Lat(ps)
      zl == Low(ps)
      tz == o.z + p.tabs.height
      L == l[Len(l)].b
      runs == IF p.tabs.kind = "edge" THEN Runs(l) ELSE << >>
      spans == IF p.tabs.kind = "edge" THEN EdgeSpans(p.tabs, l, runs) ELSE WireSpans(p.tabs, L, from)
      At(i, k, n) == l[i].a + ((l[i].b - l[i].a) * k) \div n
      N(i) == (l[i].b - l[i].a) \div 60 + 1
      Judged(x) == p.tabs.kind = "wire" \/ ~Unsure(p.tabs, l, runs, x)
  IN IF l = << >> THEN {}
     ELSE IF zl >= tz - 1 THEN (IF \E i \in Ids(l) : AbsV(l[i].s[3] - zl) > 2 THEN {"C06.above"} ELSE {})
     ELSE (IF \E i \in Ids(l) : AbsV(l[i].s[3] - zl) > 1 /\ AbsV(l[i].s[3] - tz) > 1 THEN {"C06.height"} ELSE {})
          \cup (IF \E i \in Ids(l) : AbsV(l[i].s[3] - zl) <= 1 /\ \E k \in 0 .. N(i) :
                     InSpans(spans, At(i, k, N(i)), -tol) /\ Judged(At(i, k, N(i))) THEN {"C06.missing"} ELSE {})
          \cup (IF \E i \in Ids(l) : l[i].s[3] > zl + 1 /\ \E k \in 0 .. N(i) :
                     ~InSpans(spans, At(i, k, N(i)), tol) /\ Judged(At(i, k, N(i))) THEN {"C06.extra"} ELSE {})

TabViol(p, o, ps, tol) ==
  LET l == Lat(ps)
      O == IF l = << >> THEN {0} ELSE Origins(p, l)
  IN IF \E f \in O : TabViolFrom(p, o, ps, tol, f) = {} THEN {} ELSE TabViolFrom(p, o, ps, tol, 0)
=============================================================================
