---------------------------- MODULE TraceSurface -----------------------------
(* Programs of 3D surfacing: a request (see Surface), its moves, the positions  *)
(* cut with their heights in order (spots) and the points to be covered.        *)
EXTENDS Surface, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TF).traces
VARIABLES t, n, d, bad
vars == << t, n, d, bad >>
T == D[t]

RECURSIVE SeqOf(_, _)
SeqOf(S, at) == IF S = {} THEN << >> ELSE LET c == CHOOSE x \in S : TRUE IN << [c |-> c, n |-> at] >> \o SeqOf(S \ {c}, at)
Log(S, at) == IF Len(bad) > 10 THEN bad ELSE bad \o SeqOf(S, at)

Init == t \in 1 .. Len(D) /\ n = 0 /\ d = SurfaceInit /\ bad = << >>

M == Len(T.moves)
K == M + Len(T.spots)
L == K + Len(T.wits)
Move == /\ n < M /\ n' = n + 1 /\ UNCHANGED t
        /\ LET x == SurfaceStep(T, d, T.moves[n + 1]) IN d' = x[1] /\ bad' = Log(x[2], n + 1)
Spot == /\ M <= n /\ n < K /\ n' = n + 1 /\ UNCHANGED << t, d >>
        /\ LET s == T.spots[n + 1 - M] IN bad' = Log(SpotViol(T, XY(s), SubSeq(s, 3, Len(s))), n + 1 - M)
Wit == /\ K <= n /\ n < L /\ n' = n + 1 /\ UNCHANGED << t, d >>
       /\ bad' = Log(MissViol(T, T.spots, T.wits[n + 1 - K]), n + 1 - K)
Finish == /\ n = L /\ n' = n + 1 /\ UNCHANGED << t, d, bad >>
          /\ PrintT(ToJson([t |-> t, needed |-> Cardinality({w \in 1 .. Len(T.wits) : Needed(T, T.wits[w])}), bad |-> bad]))
Next == Move \/ Spot \/ Wit \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
