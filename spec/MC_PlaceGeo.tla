---------------------------- MODULE MC_PlaceGeo -----------------------------
(* Laws of the distances in space over small lattices; every value is printed,  *)
(* so that java/Placement.java and TLC can be compared.                        *)
EXTENDS Placement, TLC, Json
CONSTANT K
Pt == (0 .. K) \X (0 .. K) \X (0 .. K)
Pts == [i \in 1 .. (K + 3) * (K + 3) * (K + 3) |-> << ((i - 1) % (K + 3)) - 1, (((i - 1) \div (K + 3)) % (K + 3)) - 1, ((i - 1) \div ((K + 3) * (K + 3))) - 1 >>]
VARIABLES a, b, done
vars == << a, b, done >>
Init == a \in {<< 0, 0, 0 >>, << 1, 0, 2 >>, << 2, 1, 0 >>} /\ b \in Pt /\ done = FALSE
S == << << a[1], a[2], a[3], b[1], b[2], b[3], 3, 1 >>, << b[1], b[2], b[3], 2, 2, 2, 4, 2 >> >>
B(v) == IF v THEN 1 ELSE 0
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED << a, b >>
        /\ PrintT(ToJson([a |-> a, b |-> b,
             near |-> [i \in 1 .. Len(Pts) |-> B(CutNear(S, Pts[i], 0, -1, 1)) + 2 * B(CutNear(S, Pts[i], 3, -1, 1)) + 4 * B(CutNear(S, Pts[i], 0, 2, 1)) + 8 * B(CutNear(S, Pts[i], 4, 1, 2))],
             all |-> [i \in 1 .. Len(Pts) |-> B(CutCovers(S, a, Pts[i], 3, 0, -1, 1)) + 2 * B(CutCovers(S, b, Pts[i], 2, 4, -1, 0))]]))
Spec == Init /\ [][Next]_vars
Laws == \A i \in 1 .. Len(Pts) : LET q == Pts[i] IN
          /\ SegNear3(a, b, q, 1) = SegNear3(b, a, q, 1)
          /\ SegNear3(a, b, q, 1) => SegNear3(a, b, q, 2)
          /\ a[3] = b[3] /\ q[3] = a[3] => SegNear3(a, b, q, 1) = SegNear(<< a[1], a[2] >>, << b[1], b[2] >>, << q[1], q[2] >>, 1)
          /\ CutCovers(S, a, b, 4, 3, 1, 0) \/ \E k \in 0 .. 4 : ~SegNear3(a, b, Lerp3(a, b, k, 4), 0)
=============================================================================
