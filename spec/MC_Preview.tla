----------------------------- MODULE MC_Preview -----------------------------
(* Previews of all jobs with up to N commands (after the first retract) in one   *)
(* or two operations on a small grid, on lattice planes.                        *)
EXTENDS Preview, TLC, Json
CONSTANTS N, Bugs, PrintReq

S == 1000
M == 1000000
Axes == {<< M, 0, 0 >>, << 0, M, 0 >>, << 0, 0, M >>, << -M, 0, 0 >>, << 0, -M, 0 >>, << 0, 0, -M >>}
Cross(a, b) == << (a[2] \div M) * b[3] - (a[3] \div M) * b[2], (a[3] \div M) * b[1] - (a[1] \div M) * b[3], (a[1] \div M) * b[2] - (a[2] \div M) * b[1] >>
Planes == {[o |-> << 5000, -3000, 2000 >>, x |-> x, y |-> Cross(n, x), n |-> n] : << x, n >> \in {a \in Axes \X Axes : Cross(a[1], a[2]) # << 0, 0, 0 >>}}

(* Commands: new position relative to the last one.                             *)
Cmds == {[k |-> "line", g |-> 0, d |-> << 2, 0, 0 >>], [k |-> "line", g |-> 1, d |-> << 0, 2, 0 >>], [k |-> "line", g |-> 1, d |-> << -2, 0, 0 >>],
         [k |-> "line", g |-> 1, d |-> << 0, 0, -1 >>], [k |-> "line", g |-> 0, d |-> << 0, 0, 1 >>], [k |-> "line", g |-> 1, d |-> << 0, 0, 0 >>],
         [k |-> "arc", g |-> 2, d |-> << 2, 0, 0 >>], [k |-> "arc", g |-> 3, d |-> << 2, 0, 0 >>]}
Top == 3
Height == 4

VARIABLES bug, plane, ops, pos, un, bad
vars == << bug, plane, ops, pos, un, bad >>

Init == /\ bug \in Bugs /\ plane \in Planes /\ ops = << << >> >> /\ pos = << 0, 0, Height >> /\ un = TRUE /\ bad = {}

Size == LET RECURSIVE L(_) L(k) == IF k = 0 THEN 0 ELSE Len(ops[k]) + L(k - 1) IN L(Len(ops))
Sc(p) == << p[1] * S, p[2] * S, p[3] * S >>
MoveOf(p, c, u) ==
  LET e == << p[1] + c.d[1], p[2] + c.d[2], p[3] + c.d[3] >>
      m == IF c.k = "arc" THEN << p[1] + 1, p[2] + (IF c.g = 2 THEN 1 ELSE -1), p[3] >> ELSE << 0, 0, 0 >>
  IN [k |-> c.k, g |-> c.g, s |-> Sc(p), e |-> Sc(e), un |-> u,
      m |-> IF c.k = "arc" THEN Sc(m) ELSE << (p[1] * S + e[1] * S) \div 2, (p[2] * S + e[2] * S) \div 2, (p[3] * S + e[3] * S) \div 2 >>]

Add(c) == /\ bad = {} /\ Size < N
          /\ ~un \/ (c.k = "line" /\ c.g = 0 /\ c.d[3] = 0)
          /\ LET m == MoveOf(pos, c, un) IN
             /\ ops' = [ops EXCEPT ![Len(ops)] = Append(@, m)]
             /\ pos' = << m.e[1] \div S, m.e[2] \div S, m.e[3] \div S >>
          /\ un' = FALSE /\ UNCHANGED << bug, plane, bad >>
NewOp == /\ bad = {} /\ Len(ops) = 1 /\ ops[1] # << >> /\ ops' = Append(ops, << >>) /\ pos' = << 0, 0, Height >> /\ un' = TRUE /\ UNCHANGED << bug, plane, bad >>

(* ------------------------------- the preview ------------------------------- *)
Inverse(P) == [o |-> << 0, 0, 0 >>, x |-> << P.x[1], P.y[1], P.n[1] >>, y |-> << P.x[2], P.y[2], P.n[2] >>, n |-> << P.x[3], P.y[3], P.n[3] >>]
UsedPlane == IF bug = "inverse" THEN Inverse(plane)
             ELSE IF bug = "unplaced" THEN [o |-> << 0, 0, 0 >>, x |-> << M, 0, 0 >>, y |-> << 0, M, 0 >>, n |-> << 0, 0, M >>]
             ELSE IF bug = "unturned" THEN [o |-> plane.o, x |-> << M, 0, 0 >>, y |-> << 0, M, 0 >>, n |-> << 0, 0, M >>]
             ELSE IF bug = "notmoved" THEN [plane EXCEPT !.o = << 0, 0, 0 >>]
             ELSE plane
EdgeOf(m0) ==
  LET m == IF bug = "zeroz" THEN [m0 EXCEPT !.s[3] = 0, !.e[3] = 0, !.m[3] = 0]
           ELSE IF bug = "otherway" /\ m0.k = "arc" THEN [m0 EXCEPT !.m[2] = 2 * m0.s[2] - m0.m[2]]
           ELSE m0
  IN [k |-> IF bug = "chord" THEN "line" ELSE m.k, s |-> PlaceBy(UsedPlane, m.s), e |-> PlaceBy(UsedPlane, m.e), m |-> PlaceBy(UsedPlane, m.m)]
RECURSIVE Draw(_, _)
Draw(ms, seen) ==
  IF ms = << >> THEN << >>
  ELSE LET m == Head(ms) e == EdgeOf(m) IN
       IF Zero(m, 0) THEN (IF bug = "stops" THEN << >> ELSE Draw(Tail(ms), seen))
       ELSE IF bug = "norapids" /\ m.g = 0 THEN Draw(Tail(ms), seen)
       ELSE IF bug = "noplunge" /\ m.s[1] = m.e[1] /\ m.s[2] = m.e[2] THEN Draw(Tail(ms), seen)
       ELSE IF bug = "once" /\ (\E f \in seen : {f.s, f.e} = {e.s, e.e} /\ f.m = e.m) THEN Draw(Tail(ms), seen)
       ELSE << e >> \o Draw(Tail(ms), seen \cup {e})
First == << [k |-> "line", g |-> 0, s |-> << 0, 0, 0 >>, e |-> << 0, 0, Height * S >>, un |-> FALSE, m |-> << 0, 0, (Height * S) \div 2 >>] >>
Rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
DrawOp(k) ==
  LET d == Draw(IF bug = "retract" THEN First \o ops[k] ELSE IF bug = "nofirst" /\ ops[k] # << >> THEN Tail(Tail(ops[k]) \o << ops[k][1] >>) ELSE ops[k], {}) IN
  IF bug = "reverse" THEN Rev(d) ELSE IF bug = "lastop" /\ k < Len(ops) THEN << >>
  ELSE IF bug = "late" /\ k = 2 THEN Draw(ops[1], {}) ELSE d

Show == /\ bad = {} /\ ops[Len(ops)] # << >> /\ UNCHANGED << bug, plane, ops, pos, un >>
        /\ LET shown == [k \in 1 .. Len(ops) |-> DrawOp(k)] IN
           bad' = {"shown"} \cup PreviewViol(plane, ops, shown, IF bug = "flatfirst" THEN shown[1] ELSE Flatten(shown), 0, 0)
        /\ IF bug # "none" /\ bad' # {"shown"} THEN PrintT(ToJson([kind |-> "bug", bug |-> bug, bad |-> bad'])) ELSE TRUE
        /\ IF PrintReq /\ plane.n[3] # 0 /\ plane.x[1] # 0 /\ (\E k \in 1 .. Len(ops) : Len(ops[k]) > 1) THEN PrintT(ToJson([kind |-> "job", ops |-> ops])) ELSE TRUE
Next == (\E c \in Cmds : Add(c)) \/ NewOp \/ Show
Spec == Init /\ [][Next]_vars
Safe == bug = "none" => bad \subseteq {"shown"}
=============================================================================
