------------------------------- MODULE MC_Geo -------------------------------
(* Laws of the plane geometry over all small triangles and quadrangles and    *)
(* all lattice points around them; every value is printed, so that the run    *)
(* with java/Geo.java and the run without it can be compared.                 *)
EXTENDS Geo, TLC, Json, FiniteSets

CONSTANTS K          \* lattice 0..K

Pt == (0 .. K) \X (0 .. K)
Grid == (-1 .. K + 1) \X (-1 .. K + 1)
GridSeq == [i \in 1 .. (K + 3) * (K + 3) |-> << ((i - 1) % (K + 3)) - 1, ((i - 1) \div (K + 3)) - 1 >>]

VARIABLES P, done
vars == << P, done >>

Init == /\ done = FALSE
        /\ P \in {<< a, b, c >> : a \in {<< 0, 0 >>, << 1, 0 >>}, b \in Pt, c \in Pt}
                 \cup {<< << 0, 0 >>, << K, 0 >>, b, c >> : b \in Pt, c \in Pt}
H0 == [i \in 1 .. Len(GridSeq) |-> -(i % 3)]
Path == [i \in 1 .. Len(P) |-> << P[i][1], P[i][2], P[(i % Len(P)) + 1][1], P[(i % Len(P)) + 1][2] >>]
B(v) == IF v THEN 1 ELSE 0

Next == /\ ~done /\ done' = TRUE /\ UNCHANGED P
        /\ PrintT(ToJson([p |-> P,
             in |-> [i \in 1 .. Len(GridSeq) |-> B(In(P, GridSeq[i]))],
             near |-> [i \in 1 .. Len(GridSeq) |-> B(PolyNear(P, GridSeq[i], 1)) + B(PathNear(Path, GridSeq[i], 2)) + B(SegNear(P[1], P[2], GridSeq[i], 1))],
             far |-> [i \in 1 .. Len(GridSeq) |-> B(Nearer(P[1], P[2], GridSeq[i], 0)) + B(Nearer(GridSeq[i], P[2], P[3], 1))],
             mill |-> Milled(H0, GridSeq, P[1], P[2], 1, -1),
             eng |-> Cardinality(Engaged(H0, GridSeq, P[2], P[3], 1, -2, 1))]))
Spec == Init /\ [][Next]_vars

Shift(q) == << q[1] + 7, q[2] - 5 >>
Swap(q) == << q[2], q[1] >>
Map(f(_)) == [i \in 1 .. Len(P) |-> f(P[i])]
Rev == [i \in 1 .. Len(P) |-> P[Len(P) + 1 - i]]
Laws ==
  \A q \in Grid :
    /\ \A d \in 0 .. 2 :
         /\ Inside(P, q, d) => Inside(P, q, d + 1)
         /\ Inside(P, q, -d - 1) => Inside(P, q, -d)
         /\ PolyNear(P, q, d) = PolyNear(Rev, q, d)
         /\ PolyNear(P, q, d) = PathNear(Path, q, d)
         /\ PolyNear(P, q, d) = PolyNear(Map(Shift), Shift(q), d)
         /\ PolyNear(P, q, d) = PolyNear(Map(Swap), Swap(q), d)
         /\ PolyNear(P, q, d) = \E i \in 1 .. Len(P) : SegNear(P[i], P[(i % Len(P)) + 1], q, d)
    /\ ~PolyNear(P, q, -1)
    /\ ~(Nearer(q, P[1], P[2], 0) /\ Nearer(q, P[2], P[1], 0))
    /\ Nearer(q, P[1], P[2], 1) => Nearer(q, P[1], P[2], 0)
    /\ (P[1] # P[2]) => Nearer(P[1], P[1], P[2], 0)
    /\ In(P, q) = In(Rev, q) \/ PolyNear(P, q, 0)
    /\ In(P, q) = In(Map(Shift), Shift(q))
    /\ In(P, q) = In(Map(Swap), Swap(q)) \/ PolyNear(P, q, 0)
=============================================================================
