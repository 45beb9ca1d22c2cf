---------------------------- MODULE TracePocket -----------------------------
(* Programs of single pocket operations, recorded as moves.                   *)
(* trace: a request (see Pocket) and                                          *)
(*   moves: sequence of [g: 0 rapid 1 cut, s, e: << x, y, z >>]               *)
(*   pts: points where the stock is watched, edge: candidates [q, i, o, f]    *)
(*   for boundary points of area f, tol, tolb: tolerances, judge: properties   *)
EXTENDS Pocket, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TF).traces

VARIABLES t, n, h, bad, st
vars == << t, n, h, bad, st >>

T == D[t]
Judge(c) == \E j \in 1 .. Len(T.judge) : T.judge[j] = c

CutMove(mv) == mv.g = 1
(* The path cut exactly at each floor. *)
PathAt == [k \in 1 .. Len(D) |->
  [z \in Floors(D[k]) |->
     LET S == SelectSeq(D[k].moves, LAMBDA mv : CutMove(mv) /\ mv.s[3] = mv.e[3] /\ mv.e[3] = z)
     IN [i \in 1 .. Len(S) |-> << S[i].s[1], S[i].s[2], S[i].e[1], S[i].e[2] >>]]]

Watched == [k \in 1 .. Len(D) |-> [i \in 1 .. Len(D[k].pts) |-> Clean(D[k], D[k].pts[i], D[k].step + D[k].tol)]]

Init == /\ t \in 1 .. Len(D) /\ n = 0 /\ bad = << >>
        /\ h = [i \in 1 .. Len(D[t].pts) |-> 0]
        /\ st = [cuts |-> 0, low |-> 0]

Log(c, at, what) == IF Len(bad) > 10 THEN bad ELSE Append(bad, [c |-> c, n |-> at, w |-> what])

XY(v) == << v[1], v[2] >>

Rapid == /\ n < Len(T.moves) /\ T.moves[n + 1].g = 0 /\ n' = n + 1 /\ UNCHANGED << t, h, bad, st >>

(* One cutting move: judged against the request, then taken out of the stock. *)
CutStep ==
  /\ n < Len(T.moves) /\ CutMove(T.moves[n + 1]) /\ n' = n + 1
  /\ LET mv == T.moves[n + 1]
         z == MinV(mv.s[3], mv.e[3])
         inStock == z < 0
         b2 == IF Judge("C02") /\ inStock /\ ~CutOk(T, mv.s, mv.e, T.tol, T.every)
               THEN Log("C02.outside", n + 1, BadSample(T, mv.s, mv.e, T.tol, T.every)) ELSE bad
         deep == IF Judge("C05") /\ T.sd > 0 /\ inStock
                 THEN {i \in Engaged(h, T.pts, XY(mv.s), XY(mv.e), T.R - T.tol, z, T.sd + 3) : Watched[t][i]} ELSE {}
         b3 == IF deep # {}
               THEN LET i == CHOOSE i \in deep : TRUE
                    IN Append(b2, [c |-> "C05.stepdown", n |-> n + 1, w |-> << T.pts[i][1], T.pts[i][2], h[i] - z >>])
               ELSE b2
         b4 == IF Judge("C05") /\ T.sd = 0 /\ inStock /\ mv.s[3] = mv.e[3] /\ z \notin Floors(T)
               THEN Append(b3, [c |-> "C05.single", n |-> n + 1, w |-> mv.e]) ELSE b3
     IN /\ bad' = IF Len(b4) > 12 THEN bad ELSE b4
        /\ h' = IF Judge("C05") /\ inStock THEN Milled(h, T.pts, XY(mv.s), XY(mv.e), T.R + T.tol, z) ELSE h
        /\ st' = [cuts |-> st.cuts + 1, low |-> MinV(st.low, z)]
  /\ UNCHANGED t

(* ---- at the end: is everything cut? ---- *)
Reach ==
  {<< f, i >> \in Ids(T.areas) \X Ids(T.pts) : MustReach(T, T.areas[f], T.pts[i], T.tol)}
Edge == {k \in Ids(T.edge) : OnBoundary(T, T.edge[k].f, T.edge[k].q, T.edge[k].i, T.edge[k].o, T.tolb, T.tol)}

Finish ==
  /\ n = Len(T.moves) /\ n' = n + 1
  /\ LET reach == IF Judge("C03") THEN Reach ELSE {}
         edge == IF Judge("C03") THEN Edge ELSE {}
         gap == {r \in reach : ~PathNear(PathAt[t][T.areas[r[1]].z], T.pts[r[2]], T.step + T.tol)}
         open == {k \in edge : ~PathNear(PathAt[t][T.areas[T.edge[k].f].z], T.edge[k].q, T.tolb + T.tol)}
         deepest == IF Judge("C05") THEN {r \in {<< f, i >> \in Ids(T.areas) \X Ids(T.pts) : MustReach(T, T.areas[f], T.pts[i], T.tol)} :
                                          h[r[2]] > T.areas[r[1]].z} ELSE {}
     IN PrintT(ToJson([t |-> t, cuts |-> st.cuts, low |-> st.low, reach |-> Cardinality(reach), edge |-> Cardinality(edge),
          bad |-> bad
            \o (IF gap = {} THEN << >> ELSE LET r == CHOOSE r \in gap : TRUE
                  IN << [c |-> "C03.gap", n |-> n, w |-> << T.pts[r[2]][1], T.pts[r[2]][2], T.areas[r[1]].z >>] >>)
            \o (IF open = {} THEN << >> ELSE LET k == CHOOSE k \in open : TRUE
                  IN << [c |-> "C03.boundary", n |-> n, w |-> << T.edge[k].q[1], T.edge[k].q[2], T.areas[T.edge[k].f].z >>] >>)
            \o (IF deepest = {} THEN << >> ELSE LET r == CHOOSE r \in deepest : TRUE
                  IN << [c |-> "C05.depth", n |-> n, w |-> << T.pts[r[2]][1], T.pts[r[2]][2], h[r[2]] >>] >>)]))
  /\ UNCHANGED << t, h, bad, st >>

Next == Rapid \/ CutStep \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
