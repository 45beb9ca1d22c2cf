--------------------------- MODULE TraceRequests ----------------------------
(* Histories of requests on real jobs: steps [req, out, added, kept].            *)
EXTENDS Requests, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TF).traces
VARIABLES t, n, bad
vars == << t, n, bad >>
T == D[t].steps
RECURSIVE SeqOf(_, _)
SeqOf(S, at) == IF S = {} THEN << >> ELSE LET c == CHOOSE x \in S : TRUE IN << [c |-> c, n |-> at] >> \o SeqOf(S \ {c}, at)

Init == t \in 1 .. Len(D) /\ n = 0 /\ bad = << >>
Step == /\ n < Len(T) /\ n' = n + 1 /\ UNCHANGED t
        /\ bad' = bad \o SeqOf(RequestViol(T[n + 1].req, T[n + 1].out, T[n + 1].added, T[n + 1].kept), n + 1)
Finish == /\ n = Len(T) /\ n' = n + 1 /\ UNCHANGED << t, bad >>
          /\ PrintT(ToJson([t |-> t, bad |-> bad, refused |-> Len(SelectSeq(T, LAMBDA s : s.out = "error"))]))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
