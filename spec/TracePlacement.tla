--------------------------- MODULE TracePlacement ---------------------------
(* Programs of one request for the part placed in several ways: progs, ordered,  *)
(* link, slack, floor, deep (see Placement).                                        *)
EXTENDS Placement, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TF).traces
VARIABLES t, n, bad
vars == << t, n, bad >>
T == D[t]
RECURSIVE SeqOf(_, _)
SeqOf(S, at) == IF S = {} THEN << >> ELSE LET c == CHOOSE x \in S : TRUE IN << [c |-> c, n |-> at] >> \o SeqOf(S \ {c}, at)

(* One placement per step                                                     *)
Init == t \in 1 .. Len(D) /\ n = 1 /\ bad = << >>
Place == /\ n < Len(T.progs) /\ n' = n + 1 /\ UNCHANGED t
         /\ bad' = bad \o SeqOf(PlacementViol(T.progs[1], T.progs[n + 1], T.ordered, T.link, T.slack, T.floor, T.deep, 2, 8, 300), n + 1)
Finish == /\ n = Len(T.progs) /\ n' = n + 1 /\ UNCHANGED << t, bad >>
          /\ PrintT(ToJson([t |-> t, bad |-> bad, cuts |-> Len(T.progs[1].cuts), dips |-> Len(T.progs[1].dips)]))
Next == Place \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
