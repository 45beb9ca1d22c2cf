----------------------------- MODULE TraceDrill -----------------------------
(* Programs of single drilling operations: a request (see Drill) and moves.     *)
EXTENDS Drill, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TF).traces
VARIABLES t, n, d, bad
vars == << t, n, d, bad >>
T == D[t]

Init == t \in 1 .. Len(D) /\ n = 0 /\ d = DrillInit(D[t]) /\ bad = << >>

RECURSIVE SeqOf(_, _)
SeqOf(S, at) == IF S = {} THEN << >> ELSE LET c == CHOOSE x \in S : TRUE IN << [c |-> c, n |-> at] >> \o SeqOf(S \ {c}, at)
Log(S, at) == IF Len(bad) > 10 THEN bad ELSE bad \o SeqOf(S, at)

Move == /\ n < Len(T.moves) /\ n' = n + 1 /\ UNCHANGED t
        /\ LET x == DrillStep(T, d, T.moves[n + 1]) IN d' = x[1] /\ bad' = Log(x[2], n + 1)
Finish == /\ n = Len(T.moves) /\ n' = n + 1 /\ UNCHANGED << t, d, bad >>
          /\ PrintT(ToJson([t |-> t, holes |-> d.n, bad |-> Log(DrillEnd(d), n)]))
Next == Move \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
