------------------------------ MODULE Preview -------------------------------
(* What a preview shows (C12): every operation's moves after its first one, as  *)
(* edges placed in the world by the plane of the job.                          *)
(*                                                                            *)
(* move [k: "line" | "arc", s, e, m, un]: from s to e (arcs: through m) in job  *)
(*   coordinates, thousandths; un: nothing was moved before in the plane, so    *)
(*   where it starts is not known.                                            *)
(* edge [k: "line" | "arc" | other, s, e, m]: in world coordinates.             *)
(* plane [o, x, y, n]: origin in thousandths, axes in millionths.               *)
EXTENDS Geo

Mul(p, c) == (p * (c \div 1000)) \div 1000 + (p * (c % 1000)) \div 1000000
PlaceBy(P, p) == [i \in 1 .. 3 |-> P.o[i] + Mul(p[1], P.x[i]) + Mul(p[2], P.y[i]) + Mul(p[3], P.n[i])]

Close3(p, q, tol) == \A i \in 1 .. 3 : AbsV(p[i] - q[i]) <= tol
Zero(m, eps) == Close3(m.s, m.e, eps) /\ Close3(m.s, m.m, eps)
(* An arc that cannot be told from its chord *)
Straight(m) == Close3(m.m, [i \in 1 .. 3 |-> (m.s[i] + m.e[i]) \div 2], 3)

Shows(P, m, e, tol) ==
  /\ e.k = m.k \/ (m.k = "arc" /\ Straight(m) /\ e.k = "line")
  /\ Close3(e.e, PlaceBy(P, m.e), tol)
  /\ m.un \/ (Close3(e.s, PlaceBy(P, m.s), tol) /\ Close3(e.m, PlaceBy(P, m.m), tol))
  (* a move from an unknown start stays on its height *)
  /\ ~m.un \/ (LET h == << e.s[1] - P.o[1], e.s[2] - P.o[2], e.s[3] - P.o[3] >>
                   z == Mul(h[1], P.n[1]) + Mul(h[2], P.n[2]) + Mul(h[3], P.n[3])
               IN AbsV(z - m.e[3]) <= tol)

(* The moves from number i on and the edges from number j on; eps: how long a   *)
(* move may be that is not shown.                                             *)
RECURSIVE Match(_, _, _, _, _, _, _)
Match(P, ms, es, i, j, eps, tol) ==
  IF i > Len(ms) THEN (IF j > Len(es) THEN {} ELSE {"C12.extra"})
  ELSE IF j <= Len(es) /\ Shows(P, ms[i], es[j], tol) THEN Match(P, ms, es, i + 1, j + 1, eps, tol)
  ELSE IF Zero(ms[i], eps) \/ ms[i].un THEN Match(P, ms, es, i + 1, j, eps, tol)
  ELSE IF j > Len(es) THEN {"C12.missing"}
  ELSE IF i < Len(ms) /\ Shows(P, ms[i + 1], es[j], tol) THEN {"C12.missing"}
  ELSE IF j < Len(es) /\ Shows(P, ms[i], es[j + 1], tol) THEN {"C12.extra"}
  ELSE IF \E k \in i .. Len(ms) : Shows(P, ms[k], es[j], tol) THEN {"C12.order"}
  ELSE IF es[j].k # ms[i].k THEN {"C12.kind"}
  ELSE {"C12.place"}

(* ops: the moves of every operation without its first one; shown: the edges of  *)
(* every operation; flat: the edges of the whole job.                          *)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flatten(Tail(ss))
PreviewViol(P, ops, shown, flat, eps, tol) ==
  (IF Len(shown) # Len(ops) THEN {"C12.operations"}
   ELSE UNION {Match(P, ops[k], shown[k], 1, 1, eps, tol) : k \in 1 .. Len(ops)})
  \cup (IF Flatten(shown) = flat THEN {} ELSE Match(P, Flatten(ops), flat, 1, 1, eps, tol))
=============================================================================
