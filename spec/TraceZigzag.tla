---------------------------- MODULE TraceZigzag -----------------------------
(* kind "ring": poly, links, steps of a real boundary:                          *)
(*   [op: "reset" | "drop" | "query", p, none, walk]                           *)
(* kind "fill": outers, inners, step, seqs, xs, tol of a real filling.          *)
EXTENDS Zigzag, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TF).traces
VARIABLES t, n, unused, bad
vars == << t, n, unused, bad >>
T == D[t]

RECURSIVE SeqOf(_, _)
SeqOf(S, at) == IF S = {} THEN << >> ELSE LET c == CHOOSE x \in S : TRUE IN << [c |-> c, n |-> at] >> \o SeqOf(S \ {c}, at)
Log(S, at) == IF Len(bad) > 10 THEN bad ELSE bad \o SeqOf(S, at)
SetOf(s) == {s[i] : i \in 1 .. Len(s)}

Init == t \in 1 .. Len(D) /\ n = 0 /\ unused = {} /\ bad = << >>

Step ==
  /\ T.kind = "ring" /\ n < Len(T.steps) /\ n' = n + 1 /\ UNCHANGED t
  /\ LET s == T.steps[n + 1] IN
     CASE s.op = "reset" -> unused' = SetOf(T.links) \ SetOf(s.walk) /\ UNCHANGED bad
       [] s.op = "drop" -> unused' = unused \ {s.p} /\ UNCHANGED bad
       [] s.op = "query" ->
            /\ bad' = Log(WalkViol(Expand(T.poly, SetOf(T.links), 1), s.p, unused, s.none, s.walk), n + 1)
            /\ unused' = unused \ ({s.p} \cup (IF s.walk = << >> THEN {} ELSE {s.walk[Len(s.walk)]}))
FinishRing ==
  /\ T.kind = "ring" /\ n = Len(T.steps) /\ n' = n + 1 /\ UNCHANGED << t, unused, bad >>
  /\ PrintT(ToJson([t |-> t, count |-> Len(T.steps), bad |-> bad]))

Fill ==
  /\ T.kind = "fill" /\ n = 0 /\ n' = 1 /\ UNCHANGED << t, unused, bad >>
  /\ LET R == [outers |-> T.outers, inners |-> T.inners] IN
     PrintT(ToJson([t |-> t, count |-> Len(All(R, T.seqs, T.tol)), bad |-> Log(FillViol(R, T.step, T.seqs, T.xs, T.tol), 1)]))

Next == Step \/ FinishRing \/ Fill
Spec == Init /\ [][Next]_vars
=============================================================================
