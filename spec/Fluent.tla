------------------------------- MODULE Fluent -------------------------------
(* Jobs are values: requests derive new jobs and change nothing else.          *)
(*                                                                             *)
(* step     [kind: "request" | "look", h: number of the job it is made on,      *)
(*           req: request (see Settings) with key: what exactly is asked for,   *)
(*           ok: it was not refused]                                            *)
(* what can be seen of a job: [set: settings, rest: everything else it was      *)
(*   created with, labels and ops: names and contents of its operations,        *)
(*   text: its program]                                                         *)
(* Contents (rest, ops, text, key, inputs) are numbers: equal contents have     *)
(* equal numbers.                                                              *)
EXTENDS Settings

Range(s) == {s[i] : i \in 1 .. Len(s)}
Labels(s) == [i \in 1 .. Len(s) |-> s[i].label]
IsPrefix(s, t) == Len(s) <= Len(t) /\ \A i \in 1 .. Len(s) : s[i] = t[i]

(* C09 *)
KeepViol(before, after) ==
  UNION {LET a == after[i] b == before[i] IN
         (IF a.set # b.set \/ a.rest # b.rest THEN {"C09.settings"} ELSE {})
         \cup (IF a.labels # b.labels \/ a.ops # b.ops THEN {"C09.operations"} ELSE {})
         \cup (IF a.text # b.text THEN {"C09.text", "C17.again"} ELSE {}) : i \in 1 .. Len(before)}

MadeViol(p, n, req) ==
  (IF n.set # ApplyTool(p.set, req.tool) \/ n.rest # p.rest THEN {"C09.derived"} ELSE {})
  \cup (IF n.labels # p.labels \o Labels(RequestSegs(p.set, req)) THEN {"C09.added"} ELSE {})
  \cup (IF ~IsPrefix(p.ops, n.ops) THEN {"C09.kept"} ELSE {})

StepViol(before, after, step) ==
  LET grown == Len(before) + (IF step.kind = "request" /\ step.ok THEN 1 ELSE 0) IN
  IF Len(after) # grown THEN {"C09.jobs"}
  ELSE KeepViol(before, after)
       \cup (IF grown > Len(before) THEN MadeViol(before[step.h], after[grown], step.req) ELSE {})

(* C17: known: what is known about programs, << derivation, text >> where a     *)
(* derivation is the initial job and the keys of the requests made.            *)
SameViol(known, deriv, text) == IF \E k \in known : k[1] = deriv /\ k[2] # text THEN {"C17.differs"} ELSE {}
InputViol(inputs, now) == IF inputs # now THEN {"C17.inputs"} ELSE {}
=============================================================================
