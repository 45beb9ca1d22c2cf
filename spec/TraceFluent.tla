---------------------------- MODULE TraceFluent -----------------------------
(* Histories of real jobs.  trace: steps (see Fluent), each with seen: what can *)
(* be seen of all jobs afterwards, and inputs: contents of all shapes, lists,   *)
(* tabs and tools handed in; start: the same before the first step;            *)
(* ref: sequence of << derivation, text >> from other processes.               *)
EXTENDS Fluent, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TF).traces
VARIABLES t, n, seen, deriv, known, bad
vars == << t, n, seen, deriv, known, bad >>
T == D[t]

RECURSIVE SeqOf(_, _)
SeqOf(S, at) == IF S = {} THEN << >> ELSE LET c == CHOOSE x \in S : TRUE IN << [c |-> c, n |-> at] >> \o SeqOf(S \ {c}, at)
Log(S, at) == IF Len(bad) > 10 THEN bad ELSE bad \o SeqOf(S, at)

Refs(x) == {<< x.ref[i].deriv, x.ref[i].text >> : i \in 1 .. Len(x.ref)}
Init == /\ t \in 1 .. Len(D) /\ n = 0 /\ bad = << >>
        /\ seen = D[t].start.seen
        /\ deriv = [i \in 1 .. Len(D[t].start.seen) |-> << i >>]
        /\ known = Refs(D[t])

Step ==
  /\ n < Len(T.steps) /\ n' = n + 1 /\ UNCHANGED t
  /\ LET s == T.steps[n + 1]
         made == s.kind = "request" /\ s.ok
         d == IF made THEN Append(deriv[s.h], s.req.key) ELSE << >>
     IN
     /\ seen' = s.seen
     /\ deriv' = IF made THEN Append(deriv, d) ELSE deriv
     /\ known' = IF made /\ Len(s.seen) = Len(seen) + 1 THEN known \cup {<< d, s.seen[Len(s.seen)].text >>} ELSE known
     /\ bad' = Log(StepViol(seen, s.seen, s)
                   \cup (IF made /\ Len(s.seen) = Len(seen) + 1 THEN SameViol(known, d, s.seen[Len(s.seen)].text) ELSE {})
                   \cup InputViol(T.start.inputs, s.inputs), n + 1)

Finish == /\ n = Len(T.steps) /\ n' = n + 1 /\ UNCHANGED << t, seen, deriv, known, bad >>
          /\ PrintT(ToJson([t |-> t, jobs |-> Len(seen), refs |-> Len(T.ref), bad |-> bad]))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
