---------------------------- MODULE MC_Placement ----------------------------
(* All parts of up to two outlines and a hole, selected in either order, placed  *)
(* by 24 rotations and 2 translations: built in place, built at the origin and   *)
(* moved, or moved twice.  The planner sees the shapes in the world.           *)
EXTENDS Placement, TLC, Json, FiniteSets
CONSTANTS N, Bugs, PrintReq

M == 1
Axes == {<< M, 0, 0 >>, << 0, M, 0 >>, << 0, 0, M >>, << -M, 0, 0 >>, << 0, -M, 0 >>, << 0, 0, -M >>}
Neg(a) == << -a[1], -a[2], -a[3] >>
Add3(a, b) == << a[1] + b[1], a[2] + b[2], a[3] + b[3] >>
Planes == {[o |-> o, x |-> x, y |-> Cross3(n, x), n |-> n] : << o, x, n >> \in {a \in {<< 0, 0, 0 >>, << 7, -3, 5 >>} \X Axes \X Axes : Dot3(a[2], a[3]) = 0}}
Id == [o |-> << 0, 0, 0 >>, x |-> << 1, 0, 0 >>, y |-> << 0, 1, 0 >>, n |-> << 0, 0, 1 >>]
Via == [o |-> << 3, -7, 11 >>, x |-> << 0, 1, 0 >>, y |-> << 0, 0, 1 >>, n |-> << 1, 0, 0 >>]
Out(P, p) == [i \in 1 .. 3 |-> P.o[i] + p[1] * P.x[i] + p[2] * P.y[i] + p[3] * P.n[i]]
Back(P, p) == LET h == Sub3(p, P.o) IN << Dot3(h, P.x), Dot3(h, P.y), Dot3(h, P.n) >>

(* Features of a part: rectangles from a to b and holes, all in part coordinates *)
Feats == {[k |-> "rect", a |-> a, b |-> << a[1] + 4, a[2] + 2 >>, z |-> z] : a \in {<< 0, 0 >>, << 6, 1 >>}, z \in {-1, -2}}
         \cup {[k |-> "hole", a |-> a, b |-> a, z |-> z] : a \in {<< 3, 6 >>, << 9, 6 >>}, z \in {-1, -3}}
Pts(f) == IF f.k = "hole" THEN << << f.a[1], f.a[2], f.z >> >>
          ELSE << << f.a[1], f.a[2], f.z >>, << f.b[1], f.a[2], f.z >>, << f.b[1], f.b[2], f.z >>, << f.a[1], f.b[2], f.z >> >>
Hows == {"world", "moved", "twice"}
(* A shape in the world: own points and the locations laid over them            *)
Shape(P, how, f) ==
  [k |-> f.k,
   pts |-> [i \in 1 .. Len(Pts(f)) |-> IF how = "world" THEN Out(P, Pts(f)[i]) ELSE Pts(f)[i]],
   locs |-> IF how = "world" THEN << >> ELSE IF how = "moved" THEN << P >>
            ELSE << [o |-> Back(Via, P.o), x |-> Back(Via, Add3(P.x, Via.o)), y |-> Back(Via, Add3(P.y, Via.o)), n |-> Back(Via, Add3(P.n, Via.o))], Via >>]
RECURSIVE Through(_, _, _)
Through(locs, p, i) == IF i > Len(locs) THEN p ELSE Through(locs, Out(locs[i], p), i + 1)

Min0(S) == CHOOSE x \in S : \A y \in S : x <= y

VARIABLES bug, part, plane, how, bad
vars == << bug, part, plane, how, bad >>
Init == bug \in Bugs /\ part = << >> /\ plane = Id /\ how = "world" /\ bad = {"open"}
Select(f) == bad = {"open"} /\ Len(part) < N /\ (\A i \in 1 .. Len(part) : part[i].a # f.a) /\ part' = Append(part, f) /\ UNCHANGED << bug, plane, how, bad >>

(* ------------------------------- the planner ------------------------------- *)
Local(J, sh, p) ==
  LET w == IF bug = "nolocation" THEN p ELSE IF bug = "onelocation" /\ sh.locs # << >> THEN Out(sh.locs[1], p)
           ELSE IF bug = "locatedtwice" THEN Through(sh.locs, Through(sh.locs, p, 1), 1) ELSE Through(sh.locs, p, 1)
      j == Back(J, w)
  IN CASE bug = "world" -> w [] bug = "unturned" -> Sub3(w, J.o) [] bug = "notmoved" -> << Dot3(w, J.x), Dot3(w, J.y), Dot3(w, J.n) >>
       [] bug = "inverse" -> Out(J, w) [] bug = "worldz" -> << j[1], j[2], w[3] >> [] bug = "upside" -> << j[1], j[2], -j[3] >>
       [] bug = "heightless" -> << j[1], j[2], Dot3(w, J.n) >>
       [] OTHER -> j
Side(J) == IF bug = "worldside" /\ J.n[3] < 0 THEN -1 ELSE IF bug = "worldtilt" /\ J.n[3] = 0 THEN 0 ELSE 1
Level(J) == IF bug = "worldlevel" THEN 5 + J.o[3] ELSE 5
CutsOf(J, sh, run) ==
  LET p == [i \in 1 .. Len(sh.pts) |-> Local(J, sh, sh.pts[i])] s == Side(J)
      q == << << p[1][1] - s, p[1][2] - s, p[1][3] >>, << p[2][1] + s, p[2][2] - s, p[2][3] >>, << p[3][1] + s, p[3][2] + s, p[3][3] >>, << p[4][1] - s, p[4][2] + s, p[4][3] >> >>
  IN [i \in 1 .. 4 |-> LET a == q[i] b == q[(i % 4) + 1] IN << a[1], a[2], a[3], b[1], b[2], b[3], 9, run >>]
Order(J, shs) ==
  IF bug = "worldorder" /\ Len(shs) > 1 /\ Through(shs[1].locs, shs[1].pts[1], 1)[1] > Through(shs[2].locs, shs[2].pts[1], 1)[1]
  THEN << shs[2], shs[1] >> \o SubSeq(shs, 3, Len(shs))
  ELSE IF bug = "worlddedupe" THEN SelectSeq(shs, LAMBDA s : s = shs[1] \/ Through(s.locs, s.pts[1], 1)[3] # Through(shs[1].locs, shs[1].pts[1], 1)[3]) ELSE shs
RECURSIVE Flat(_, _)
Flat(ss, i) == IF i > Len(ss) THEN << >> ELSE ss[i] \o Flat(ss, i + 1)
Program(J, shs0) ==
  LET shs == Order(J, shs0) IN
  [cuts |-> Flat([i \in 1 .. Len(shs) |-> IF shs[i].k = "rect" THEN CutsOf(J, shs[i], i) ELSE << >>], 1),
   dips |-> Flat([i \in 1 .. Len(shs) |-> IF shs[i].k = "hole" THEN LET p == Local(J, shs[i], shs[i].pts[1]) IN << << p[1], p[2], p[3], IF bug = "worldfeed" /\ J.o[3] > 0 THEN 3 ELSE 4 >> >> ELSE << >>], 1),
   levels |-> << Level(J) >>]

Plan(P, h) ==
  /\ bad = {"open"} /\ part # << >> /\ plane' = P /\ how' = h /\ UNCHANGED << bug, part >>
  /\ LET here == Program(P, [i \in 1 .. Len(part) |-> Shape(P, h, part[i])])
         there == Program(Id, [i \in 1 .. Len(part) |-> Shape(Id, "world", part[i])])
     IN bad' = PlacementViol(there, here, TRUE, 0, 0, Min0({part[i].z : i \in 1 .. Len(part)}), TRUE, 0, 0, 1)
  /\ IF bug # "none" /\ bad' # {} THEN PrintT(ToJson([kind |-> "bug", bug |-> bug, bad |-> bad'])) ELSE TRUE
  /\ IF PrintReq THEN PrintT(ToJson([kind |-> "req", part |-> part, plane |-> P, how |-> h])) ELSE TRUE
Next == (\E f \in Feats : Select(f)) \/ (\E P \in Planes, h \in Hows : Plan(P, h))
Spec == Init /\ [][Next]_vars
Safe == bug = "none" => bad \in {{}, {"open"}}
=============================================================================
