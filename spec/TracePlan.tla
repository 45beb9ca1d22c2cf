------------------------------ MODULE TracePlan ------------------------------
(* trace: [lines: blocks of the program, plan: per operation a sequence of   *)
(*         planned moves]                                                    *)
EXTENDS Plan, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TF).traces

VARIABLES t, l, op, n, m, bad
vars == << t, l, op, n, m, bad >>

Init == t \in 1 .. Len(D) /\ l = 0 /\ op = 0 /\ n = 0 /\ m = PowerOn(-1) /\ bad = << >>

RECURSIVE SeqOf(_, _)
SeqOf(S, at) == IF S = {} THEN << >> ELSE LET c == CHOOSE x \in S : TRUE IN << [c |-> c, l |-> at] >> \o SeqOf(S \ {c}, at)
Log(S, at) == IF Len(bad) > 20 THEN bad ELSE bad \o SeqOf(S, at)

B == D[t].lines[l + 1]
P(o) == IF o \in 1 .. Len(D[t].plan) THEN D[t].plan[o] ELSE << >>

Skip == l < Len(D[t].lines) /\ B.kind = "blank" /\ l' = l + 1 /\ UNCHANGED << t, op, n, m, bad >>

NewOp ==
  /\ l < Len(D[t].lines) /\ B.kind = "comment" /\ l' = l + 1
  /\ IF l = 0 THEN UNCHANGED << op, n, bad >>
     ELSE /\ op' = op + 1 /\ n' = 0
          /\ bad' = Log((IF op > 0 /\ n # Len(P(op)) THEN {"C11.missing"} ELSE {}), l + 1)
  /\ UNCHANGED << t, m >>

Code ==
  /\ l < Len(D[t].lines) /\ B.kind = "code" /\ l' = l + 1
  /\ m' = Exec(m, B)
  /\ IF ~IsMove(m, B) THEN UNCHANGED << n, bad >>
     ELSE /\ n' = n + 1
          /\ bad' = Log(IF n + 1 > Len(P(op)) THEN {"C11.unplanned"}
                        ELSE MoveViol(P(op)[n + 1], m, B)
                             \cup (IF n > 0 THEN JoinViol(P(op)[n + 1], P(op)[n]) ELSE {}), l + 1)
  /\ UNCHANGED << t, op >>

Finish ==
  /\ l = Len(D[t].lines) /\ l' = l + 1
  /\ PrintT(ToJson([t |-> t, bad |-> Log((IF op > 0 /\ n # Len(P(op)) THEN {"C11.missing"} ELSE {})
                                           \cup (IF op # Len(D[t].plan) THEN {"C11.missing"} ELSE {}), l),
                    ops |-> op]))
  /\ UNCHANGED << t, op, n, m, bad >>

Next == Skip \/ NewOp \/ Code \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
