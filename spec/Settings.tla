------------------------------ MODULE Settings ------------------------------
(* The settings of a job and what a tool argument does to them.  -1 stands  *)
(* for "not set" (in a job) and "not given" (in a tool argument).           *)
(*                                                                          *)
(* settings  [num, dia, feed, speed, pfeed, cool]                           *)
(* tool      [given, num, dia, feed, speed]                                 *)
(* request   [kind, tool]  kind: "profile" "wire" "pocket" "drill" "update" *)
(* segment   [label, set]  a labelled part of the program and the settings  *)
(*                         in effect for it                                 *)
EXTENDS Integers, Sequences

None == -1
Given(v, old) == IF v = None THEN old ELSE v

Label(kind) == CASE kind = "profile" -> "Profile"
                 [] kind = "wire"    -> "Wire Profile"
                 [] kind = "pocket"  -> "Pocket"
                 [] kind = "drill"   -> "Drill"
                 [] OTHER            -> kind

ApplyTool(s, t) ==
  IF ~t.given THEN s
  ELSE [s EXCEPT !.num   = Given(t.num, s.num),
                 !.dia   = Given(t.dia, s.dia),
                 !.feed  = Given(t.feed, s.feed),
                 !.speed = Given(t.speed, s.speed)]

(* What must be inserted before the operation: a different tool needs a     *)
(* tool change (which also sets the speed), a different speed alone a       *)
(* speed change, anything else nothing.                                     *)
ChangeSegs(s, t) ==
  LET n == ApplyTool(s, t) IN
  IF n.num # s.num THEN << [label |-> "Tool Change", set |-> n] >>
  ELSE IF n.speed # s.speed THEN << [label |-> "Speed Change", set |-> n] >>
  ELSE << >>

RequestSegs(s, r) ==
  LET n == ApplyTool(s, r.tool) IN
  ChangeSegs(s, r.tool)
    \o (IF r.kind = "update" THEN << >> ELSE << [label |-> Label(r.kind), set |-> n] >>)

(* All segments and the final settings of a history of requests.            *)
RECURSIVE HistorySegs(_, _, _)
HistorySegs(s, reqs, k) ==
  IF k > Len(reqs) THEN << >>
  ELSE RequestSegs(s, reqs[k]) \o HistorySegs(ApplyTool(s, reqs[k].tool), reqs, k + 1)
=============================================================================
