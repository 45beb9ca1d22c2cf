------------------------------ MODULE Requests ------------------------------
(* Which requests are refused (C18).                                          *)
(*                                                                            *)
(* request [kind: "profile" | "wire" | "pocket" | "drill",                      *)
(*   dia: the tool diameter: "job" | "tool" (given with the request) | "none",   *)
(*   outer, inner: the offset is not disabled (profile),                        *)
(*   items: selected shapes, avoid: avoided shapes (pocket),                    *)
(*   depth: a depth is given (drill),                                          *)
(*   tabs: "none" | "wire" | "edge" | "equal" | "wide": tabs per outline, per     *)
(*     edge, per edge as far apart as wide, per edge wider than their spacing,  *)
(*   steps, limit: the steps down from the first pass that the deepest of the    *)
(*     profiled outlines takes and how many are allowed]                       *)
(* shapes: "face", "wire", "point"; "edge", "solid", "compound", "vertex",        *)
(*   "text": nothing that can be machined; for pockets also "level" (a face on    *)
(*   the job plane), "above" (over it), "tilted" and "round" (not flat)          *)
EXTENDS Integers, Sequences

Range(s) == {s[i] : i \in 1 .. Len(s)}
Takes(kind) == CASE kind = "profile" -> {"face", "wire"}
                 [] kind = "wire" -> {"wire"}
                 [] kind = "pocket" -> {"face", "level"}
                 [] kind = "drill" -> {"face", "wire", "point"}

Reasons(r) ==
  (IF r.kind # "drill" /\ r.dia = "none" THEN {"diameter"} ELSE {})
  \cup (IF r.kind = "profile" /\ ~r.outer /\ ~r.inner THEN {"offsets"} ELSE {})
  \cup (IF Range(r.items) \subseteq Takes(r.kind) THEN {} ELSE {"shape"})
  \cup (IF r.kind = "pocket" /\ ~(Range(r.avoid) \subseteq Takes(r.kind)) THEN {"avoid"} ELSE {})
  \cup (IF r.kind = "drill" /\ r.items = << >> THEN {"targets"} ELSE {})
  \cup (IF r.kind = "drill" /\ ~r.depth THEN {"depth"} ELSE {})
  \cup (IF r.tabs \in {"equal", "wide"} THEN {"tabs"} ELSE {})
  \cup (IF r.kind \in {"profile", "wire"} /\ r.steps > r.limit THEN {"steps"} ELSE {})

(* What became of a request: out: "job" | "error"; added: the operations that the  *)
(* answer has more than the job before (0 without answer); kept: the job before    *)
(* is as it was.                                                              *)
RequestViol(r, out, added, kept) ==
  (IF Reasons(r) # {} /\ out = "job" THEN {"C18.accepted"} ELSE {})
  \cup (IF Reasons(r) = {} /\ out # "job" THEN {"C18.refused"} ELSE {})
  \cup (IF out = "job" /\ Reasons(r) = {} /\ added < 1 THEN {"C18.dropped"} ELSE {})
  \cup (IF kept THEN {} ELSE {"C18.changed"})
=============================================================================
