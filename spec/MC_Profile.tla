----------------------------- MODULE MC_Profile -----------------------------
(* Design of a profile operation: squares with square holes, offset inwards,   *)
(* cut in layers with tabs.  Every step is one pass; the passes are judged by  *)
(* the clauses of module Profile.  bug = "none" is the design, the others are  *)
(* deviations that the clauses must reject.                                    *)
EXTENDS Profile, TLC, Json

CONSTANTS MaxItems, Depths, Stepdowns, Bugs, PrintReq

VARIABLES bug, req, plan, n, o, done, before, bad
vars == << bug, req, plan, n, o, done, before, bad >>

Square(x, y, a) == << << x, y >>, << x + a, y >>, << x + a, y + a >>, << x, y + a >> >>
Item(i, z, hole) == [outer |-> Square(12000 * i, 0, 8000),
                     holes |-> IF hole THEN << Square(12000 * i + 2000, 2000, 4000) >> ELSE << >>, z |-> -z]
Shapes == UNION {[1 .. k -> Depths \X BOOLEAN] : k \in 1 .. MaxItems}
NoTabs == [kind |-> "none", count |-> 1, spacing |-> 1, width |-> 1, height |-> 0, only |-> ""]
Tabs == {NoTabs}
        \cup {[NoTabs EXCEPT !.kind = "wire", !.count = c, !.width = 600, !.height = h] : c \in {1, 3}, h \in {500, 1000, 2500}}
        \cup {[NoTabs EXCEPT !.kind = "edge", !.spacing = s, !.width = 600, !.height = h] : s \in {1500, 2500}, h \in {500, 1000}}
Offsets == {<< -1000, -1000 >>, << -1000, None >>, << None, -1000 >>, << 0, -1000 >>}

(* ---- the design ---- *)
RECURSIVE SortUp(_)
SortUp(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN << m >> \o SortUp(S \ {m})

RECURSIVE Layers(_, _, _)
Layers(from, z, sd) ==
  IF sd = 0 \/ from - sd <= z THEN << z >> ELSE << from - sd >> \o Layers(from - sd, z, sd)
LayersOf(z, sd) ==
  LET l == Layers(0, z, IF bug = "single" THEN 0 ELSE sd) IN
  IF bug = "nolast" /\ Len(l) > 1 THEN SubSeq(l, 1, Len(l) - 1)
  ELSE IF bug = "overlast" /\ sd > 0 THEN [l EXCEPT ![Len(l)] = -sd * Len(l)]
  ELSE IF bug = "upwards" THEN [i \in DOMAIN l |-> l[Len(l) + 1 - i]]
  ELSE l

(* Inward offset of the square P by a. *)
Inner(P, a) == << << P[1][1] + a, P[1][2] + a >>, << P[2][1] - a, P[2][2] + a >>, << P[3][1] - a, P[3][2] - a >>, << P[4][1] + a, P[4][2] - a >> >>
At(Q, x) ==
  LET s == Q[2][1] - Q[1][1] k == (x \div s) % 4 r == x % s
  IN << Q[1][1] + (IF k = 0 THEN r ELSE IF k = 1 THEN s ELSE IF k = 2 THEN s - r ELSE 0),
        Q[1][2] + (IF k = 0 THEN 0 ELSE IF k = 1 THEN r ELSE IF k = 2 THEN s ELSE s - r) >>

Spans(r, s) ==
  LET w == IF bug = "narrow" THEN r.tabs.width \div 2 ELSE IF bug = "wide" THEN r.tabs.width * 2 ELSE r.tabs.width
      L == 4 * s
  IN IF r.tabs.kind = "none" \/ bug = "notabs" THEN {}
     ELSE IF r.tabs.kind = "wire"
     THEN LET c == IF bug = "fewer" THEN r.tabs.count - 1 ELSE IF bug = "more" THEN r.tabs.count + 1 ELSE r.tabs.count
              at(k) == (k * L) \div c + (IF bug = "shifted" THEN w ELSE 0) + (IF r.turned THEN s ELSE 0)
          IN UNION {{<< at(k) - w \div 2 + j * L, at(k) + w \div 2 + j * L >> : j \in IF bug = "nowrap" THEN {0} ELSE {0, 1}} : k \in 0 .. c - 1}
     ELSE LET m == s \div r.tabs.spacing IN
          {<< e * s + (s * k) \div (m + 1) - w \div 2, e * s + (s * k) \div (m + 1) + w \div 2 >> :
             e \in IF bug = "oneedge" THEN 0 .. 2 ELSE 0 .. 3, k \in 1 .. m}

(* The moves of a pass at height z over the square Q with tabs topping out at tz. *)
PassOf(r, Q, z, tz) ==
  LET s == Q[2][1] - Q[1][1]
      spans == IF (z >= tz /\ bug # "abovetabs") \/ (bug = "finaltabs" /\ z > tz - r.tabs.height) THEN {} ELSE Spans(r, s)
      L == IF bug = "open" THEN 3 * s ELSE 4 * s
      cuts == SortUp({x \in {0, s, 2 * s, 3 * s, L} \cup UNION {{t[1], t[2]} : t \in spans} : x >= 0 /\ x <= L})
      H(k) == IF \E t \in spans : t[1] <= cuts[k] /\ cuts[k + 1] <= t[2] THEN (IF bug = "lowtabs" THEN z + (tz - z) \div 2 ELSE tz) ELSE z
      P3(x, h) == << At(Q, x % (4 * s))[1], At(Q, x % (4 * s))[2], h >>
      Move(a, b, x, y, i) == [s |-> a, e |-> b, k |-> "line", c |-> << 0, 0 >>, dir |-> 0, a |-> x, b |-> y, id |-> i]
  IN Flat([k \in 1 .. Len(cuts) - 1 |->
        (IF k > 1 /\ H(k - 1) # H(k) THEN << Move(P3(cuts[k], H(k - 1)), P3(cuts[k], H(k)), cuts[k], cuts[k], 2 * k) >> ELSE << >>)
        \o << Move(P3(cuts[k], H(k)), P3(cuts[k + 1], H(k)), cuts[k], cuts[k + 1], 2 * k + 1) >>])

Outlines(r) ==
  LET e == Expected(r) N == Len(e) IN
  IF bug = "reversed" THEN [i \in 1 .. N |-> e[N + 1 - i]]
  ELSE IF bug = "dropped" THEN SubSeq(e, 1, N - 1)
  ELSE e
Plan(r) ==
  LET e == Outlines(r) IN
  Flat([i \in 1 .. Len(e) |->
     LET a == IF bug = "otherside" THEN e[i].rho ELSE -e[i].rho
         Q == Inner(e[i].P, IF bug = "closer" /\ a > 0 THEN a - 100 ELSE a)
         l == LayersOf(e[i].z, r.sd)
     IN [k \in 1 .. Len(l) |-> PassOf(r, Q, l[k], IF r.tabs.kind = "none" THEN l[k] ELSE IF bug = "perlayer" THEN l[k] + r.tabs.height ELSE e[i].z + r.tabs.height)]])

Init == \E f \in Shapes, off \in Offsets, sd \in Stepdowns, tb \in Tabs, w \in BOOLEAN :
  /\ off[1] # None \/ \E i \in 1 .. Len(f) : f[i][2]
  /\ w => tb.kind = "wire"
  /\ req = [items |-> [i \in 1 .. Len(f) |-> Item(i, f[i][1], f[i][2])], ro |-> off[1], ri |-> off[2], sd |-> sd, tabs |-> tb, turned |-> w]
  /\ bug \in Bugs /\ plan = << >> /\ n = 0 /\ o = 0 /\ done = {} /\ before = 0 /\ bad = {}

E == Expected(req)
Open == (1 .. Len(E)) \ done
Candidates == LET g == CHOOSE g \in {E[k].group : k \in Open} : \A k \in Open : g <= E[k].group
              IN {k \in Open : E[k].group = g}

Start ==
  /\ plan = << >> /\ n = 0 /\ n' = 1 /\ plan' = Plan(req) /\ UNCHANGED << bug, req, o, done, before, bad >>
  /\ IF PrintReq /\ ~req.turned THEN PrintT(ToJson([kind |-> "req", items |-> [i \in 1 .. Len(req.items) |-> [z |-> req.items[i].z, holes |-> Len(req.items[i].holes)]],
         ro |-> req.ro, ri |-> req.ri, sd |-> req.sd, tabs |-> req.tabs])) ELSE TRUE

(* As in TraceProfile. *)
Pass ==
  /\ n > 0 /\ n <= Len(plan) /\ n' = n + 1 /\ UNCHANGED << bug, req, plan >>
  /\ LET ps == plan[n] z == Low(ps) IN
     IF o = 0 /\ Open = {} THEN bad' = bad \cup {"C04.extra"} /\ UNCHANGED << o, done, before >>
     ELSE LET F == {k \in Candidates : Follows(E[k], ps, 8)}
              c == IF o # 0 THEN o ELSE IF F # {} THEN CHOOSE k \in F : TRUE ELSE CHOOSE k \in Candidates : TRUE
              x == E[c]
              last == z <= x.z + 1
          IN /\ bad' = bad \cup FollowViol(x, ps, Inner(x.P, -x.rho), 8, 500) \cup LayerViol(req, x, before, z)
                          \cup (IF req.tabs.kind = "none" THEN {} ELSE TabViol(req, x, ps, 25))
             /\ o' = (IF last THEN 0 ELSE c) /\ done' = done \cup {c} /\ before' = (IF last THEN 0 ELSE z)

Final ==
  /\ n = Len(plan) + 1 /\ n > 0 /\ n' = n + 1 /\ UNCHANGED << bug, req, plan, o, done, before >>
  /\ bad' = bad \cup (IF o # 0 \/ Open # {} THEN {"C04.missing"} ELSE {})
  /\ IF bug # "none" /\ bad' # {} THEN PrintT(ToJson([kind |-> "bug", bug |-> bug, bad |-> bad'])) ELSE TRUE

Next == Start \/ Pass \/ Final
Spec == Init /\ [][Next]_vars
Safe == bug = "none" => bad = {}
=============================================================================
