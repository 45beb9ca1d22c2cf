---------------------------- MODULE TraceProgram ----------------------------
(* Recorded programs, one block per step, judged by the clauses of Program.  *)
(* trace: [cfg, init: settings, reqs: requests, planned: moves per real      *)
(*         operation, lines: blocks, saved, text: identities of the texts]   *)
EXTENDS Program, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TF).traces

VARIABLES t, l, m, seg, fresh, exp, count, moves, bad
vars == << t, l, m, seg, fresh, exp, count, moves, bad >>

Init ==
  /\ t \in 1 .. Len(D)
  /\ l = 0
  /\ m = PowerOn(D[t].init.num)
  /\ seg = 0
  /\ fresh = FALSE
  /\ exp = HistorySegs(D[t].init, D[t].reqs, 1)
  /\ count = << >>     \* motion blocks per segment seen
  /\ moves = 0
  /\ bad = << >>

Seg(k) == IF k = 0 \/ k > Len(exp) THEN NoSeg ELSE exp[k]
Log(S, at) == IF Len(bad) > 20 THEN bad ELSE bad \o LET RECURSIVE F(_) F(Q) == IF Q = {} THEN << >> ELSE LET c == CHOOSE x \in Q : TRUE IN << [c |-> c, l |-> at] >> \o F(Q \ {c}) IN F(S)

B == D[t].lines[l + 1]

Blank ==
  /\ l < Len(D[t].lines) /\ B.kind = "blank"
  /\ l' = l + 1
  /\ bad' = Log(IF B.ok THEN {} ELSE {"C10.line"}, l + 1)
  /\ UNCHANGED << t, m, seg, fresh, exp, count, moves >>

Comment ==
  /\ l < Len(D[t].lines) /\ B.kind = "comment"
  /\ l' = l + 1
  /\ IF l = 0
     THEN /\ bad' = Log(IF B.ok THEN {} ELSE {"C10.line"}, 1)
          /\ UNCHANGED << seg, fresh, count >>
     ELSE /\ seg' = NextSeg(exp, seg, B.label)
          /\ fresh' = TRUE
          /\ count' = Append(count, 0)
          /\ bad' = Log((IF B.ok THEN {} ELSE {"C10.line"}) \cup LabelViol(exp, seg, B.label)
                        \cup (IF B.owner THEN {} ELSE {"C10.label"})
                        \cup (IF m.spindle = 50 THEN {"C10.start"} ELSE {}), l + 1)
  /\ UNCHANGED << t, m, exp, moves >>

Code ==
  /\ l < Len(D[t].lines) /\ B.kind = "code"
  /\ l' = l + 1
  /\ m' = Exec(m, B)
  /\ bad' = Log(BlockViol(D[t].cfg, Seg(seg), fresh, m, B)
                \cup (IF count = << >> /\ IsMove(m, B) THEN {"C10.outside"} ELSE {}), l + 1)
  /\ fresh' = (fresh /\ ~IsMove(m, B))
  /\ count' = IF IsMove(m, B) /\ count # << >> THEN [count EXCEPT ![Len(count)] = @ + 1] ELSE count
  /\ moves' = moves + (IF IsMove(m, B) THEN 1 ELSE 0)
  /\ UNCHANGED << t, seg, exp >>

EndViol ==
  (IF ~m.ended THEN {"C10.end"} ELSE {})
  \cup (IF seg # Len(exp) \/ Len(count) # Len(exp) THEN {IF seg < Len(exp) /\ IsChange(exp[seg + 1].label) THEN "C08.missing" ELSE "C10.complete"} ELSE {})
  \cup (IF count # D[t].planned THEN {"C10.operation"} ELSE {})
  \cup (IF D[t].saved # D[t].text THEN {"C10.saved"} ELSE {})

Finish ==
  /\ l = Len(D[t].lines)
  /\ l' = l + 1
  /\ PrintT(ToJson([t |-> t, bad |-> Log(EndViol, l), moves |-> moves, segs |-> Len(exp)]))
  /\ UNCHANGED << t, m, seg, fresh, exp, count, moves, bad >>

Next == Blank \/ Comment \/ Code \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
