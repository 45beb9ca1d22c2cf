------------------------------- MODULE MC_Plan -------------------------------
(* All arcs between lattice points of a circle, printed exactly and with      *)
(* deviations: the clauses of Plan accept the former and reject the latter.   *)
EXTENDS Plan, FiniteSets, TLC, Json

R == 25
Circle == { p \in (-R .. R) \X (-R .. R) : p[1] * p[1] + p[2] * p[2] = R * R }
Devs == {"none", "flip", "centre", "end", "linear", "swapij", "closed"}

VARIABLES s, mid, e, c, scale, dev, verdict
vars == << s, mid, e, c, scale, dev, verdict >>

Ccw(p, q, r) == Cross(Sub(q, p), Sub(r, p)) > 0
V3(p, k) == << p[1] * k, p[2] * k, 0 >>
Plus(p, q) == << p[1] + q[1], p[2] + q[2] >>

Init ==
  /\ s \in Circle /\ e \in Circle /\ mid \in Circle
  /\ s # e /\ mid # s /\ mid # e
  /\ Norm2(Sub(mid, s)) = Norm2(Sub(mid, e))       \* the middle of one of the two arcs
  /\ c \in { << 0, 0 >>, << 30, -7 >> } /\ scale \in {1, 40, 4000}
  /\ dev \in Devs /\ verdict = {"?"}

(* lattice unit = scale thousandths *)
G == IF Ccw(s, mid, e) THEN 30 ELSE 20
At(p) == << (p[1] + c[1]) * scale, (p[2] + c[2]) * scale >>
Planned ==
  [g |-> G, k |-> << TRUE, TRUE, TRUE >>, ks |-> << TRUE, TRUE, TRUE >>,
   s |-> V3(At(s), 100), e |-> V3(At(e), 100), m |-> V3(At(mid), 100), c |-> V3(At(<< 0, 0 >>), 100)]
Machine == [PowerOn(-1) EXCEPT !.px = At(s)[1], !.py = At(s)[2], !.pz = 0, !.kx = TRUE, !.ky = TRUE, !.kz = TRUE]
Off == 2 + scale \div 10
Block ==
  LET g == IF dev = "flip" THEN 50 - G ELSE IF dev = "linear" THEN 10 ELSE G
      to == IF dev = "closed" THEN At(s) ELSE At(e)
      i == -s[1] * scale j == -s[2] * scale
  IN [kind |-> "code", ok |-> TRUE, g |-> << g >>, m |-> << >>, has |-> << "X", "Y", "I", "J" >>,
      x |-> to[1] + (IF dev = "end" THEN 1 ELSE 0), y |-> to[2], z |-> 0,
      i |-> (IF dev = "swapij" THEN j ELSE i) + (IF dev = "centre" THEN 1 ELSE 0),
      j |-> (IF dev = "swapij" THEN i ELSE j), k |-> 0, f |-> 0, s |-> 0, t |-> 0, h |-> 0]

Judge ==
  /\ verdict = {"?"}
  /\ verdict' = MoveViol(Planned, Machine, Block)
  /\ UNCHANGED << s, mid, e, c, scale, dev >>
Next == Judge
Spec == Init /\ [][Next]_vars

Accepts == dev = "none" /\ verdict # {"?"} => verdict = {}
Rejects == dev # "none" /\ ~(dev = "swapij" /\ s[1] = s[2]) /\ verdict # {"?"} => verdict # {}
=============================================================================
