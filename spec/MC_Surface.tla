----------------------------- MODULE MC_Surface ------------------------------
(* Design of 3D surfacing: every row of N positions over a surface with any of   *)
(* the Heights at each of them, cut in passes.  Every step is one pass or move. *)
EXTENDS Surface, TLC, Json
CONSTANTS N, Depth, Downs, Bugs, PrintReq

VARIABLES bug, h, down, pass, todo, pos, d, zs, bad
vars == << bug, h, down, pass, todo, pos, d, zs, bad >>

G == 1000
Heights == {1000 - v : v \in Depth}
X(i) == i * G
Bottom == -MaxOf({-h[i] : i \in 1 .. N})
R == [slabs |-> [i \in 1 .. N |-> [x0 |-> X(i) - 400, y0 |-> -400, x1 |-> X(i) + 400, y1 |-> 400, a |-> h[i], b |-> h[i], axis |-> 1]],
      bottom |-> Bottom, rad |-> 2 * Tol, outline |-> << << 0, -600 >>, << X(N + 1), -600 >>, << X(N + 1), 600 >>, << 0, 600 >> >>,
      off |-> 0, grain |-> G, row |-> 2000, down |-> down, top |-> 0, rapid |-> 10000, safe |-> 1000]

(* The depths of the passes. *)
RECURSIVE DepthsFrom(_)
DepthsFrom(z) == IF z <= Bottom THEN << Bottom >> ELSE << z >> \o DepthsFrom(z - (IF bug = "bigstep" THEN 2 * down ELSE down))
Depths == IF down = 0 THEN << Bottom >>
          ELSE IF bug = "nofinal" /\ Len(DepthsFrom(-down)) > 1 THEN SubSeq(DepthsFrom(-down), 1, Len(DepthsFrom(-down)) - 1)
          ELSE IF bug = "upwards" THEN LET q == DepthsFrom(-down) IN [i \in 1 .. Len(q) |-> q[Len(q) + 1 - i]]
          ELSE DepthsFrom(-down)

(* Maximal runs of positions that are not above z. *)
RECURSIVE Runs(_, _, _)
Runs(i, z, cur) ==
  IF i > N THEN (IF cur = << >> THEN << >> ELSE << cur >>)
  ELSE IF h[i] > z THEN (IF cur = << >> \/ bug = "bridge" THEN Runs(i + 1, z, cur) ELSE << cur >> \o Runs(i + 1, z, << >>))
  ELSE Runs(i + 1, z, Append(cur, i))

At(i, z) == << X(i), 0, IF bug = "gouge" THEN z ELSE MaxV(z, h[i]) >>
RunMoves(run, z) ==
  << [g |-> 0, e |-> << -1, -1, IF bug = "lowtravel" THEN R.safe ELSE R.rapid >>], [g |-> 0, e |-> << X(run[1]), 0, -1 >>], [g |-> 0, e |-> << X(run[1]), 0, R.safe >>] >>
  \o [k \in 1 .. (IF bug = "skipfirst" THEN Len(run) - 1 ELSE Len(run)) |->
        [g |-> 1, e |-> At(run[IF bug = "skipfirst" THEN k + 1 ELSE k], z)]]
RECURSIVE AllMoves(_, _)
AllMoves(rs, z) == IF rs = << >> THEN << >> ELSE RunMoves(Head(rs), z) \o AllMoves(Tail(rs), z)
(* Positions above the pass before the last one are done. *)
Limit(k) == IF bug = "early" THEN Depths[k] ELSE IF k > 2 THEN Depths[k - 2] ELSE 0

Init == /\ bug \in Bugs /\ h \in [1 .. N -> Heights] /\ down \in Downs
        /\ pass = 0 /\ todo = << >> /\ pos = << 0, 0, 10000 >> /\ d = SurfaceInit /\ zs = [i \in 1 .. N |-> << >>] /\ bad = {}
        /\ IF PrintReq THEN PrintT(ToJson([kind |-> "req", h |-> h, down |-> down])) ELSE TRUE

Pass == /\ todo = << >> /\ pass < Len(Depths) /\ pass' = pass + 1
        /\ todo' = AllMoves(Runs(1, Limit(pass + 1), << >>), Depths[pass + 1])
        /\ UNCHANGED << bug, h, down, pos, d, zs, bad >>
Move == /\ todo # << >>
        /\ LET q == Head(todo)
               e == [k \in 1 .. 3 |-> IF q.g = 0 /\ q.e[k] = -1 THEN pos[k] ELSE q.e[k]]
               x == SurfaceStep(R, d, [g |-> q.g, s |-> pos, e |-> e])
           IN /\ pos' = e /\ d' = x[1] /\ bad' = bad \cup x[2]
              /\ zs' = IF q.g = 1 THEN [zs EXCEPT ![e[1] \div G] = Append(@, e[3])] ELSE zs
        /\ todo' = Tail(todo) /\ UNCHANGED << bug, h, down, pass >>
Visited == {i \in 1 .. N : zs[i] # << >>}
RECURSIVE Order(_)
Order(S) == IF S = {} THEN << >> ELSE LET i == CHOOSE i \in S : TRUE IN << << X(i), 0 >> >> \o Order(S \ {i})
End == /\ todo = << >> /\ pass = Len(Depths) /\ pass' = pass + 1 /\ UNCHANGED << bug, h, down, todo, pos, d, zs >>
       /\ bad' = bad \cup UNION {SpotViol(R, << X(i), 0 >>, zs[i]) : i \in Visited}
                     \cup UNION {MissViol([R EXCEPT !.row = 100, !.grain = 100], Order(Visited), << X(i), 0 >>) : i \in 1 .. N}
       /\ IF bug # "none" /\ bad' # {} THEN PrintT(ToJson([kind |-> "bug", bug |-> bug, bad |-> bad'])) ELSE TRUE

Next == Pass \/ Move \/ End
Spec == Init /\ [][Next]_vars
Safety == bug = "none" => bad = {}
(* Every position that is not above the stock is finished. *)
Done == (bug = "none" /\ pass > Len(Depths)) => \A i \in 1 .. N : h[i] <= 0 => (zs[i] # << >> /\ zs[i][Len(zs[i])] = h[i])
=============================================================================
