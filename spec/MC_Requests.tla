---------------------------- MODULE MC_Requests -----------------------------
(* All requests on all jobs after up to N requests.                            *)
EXTENDS Requests, TLC, Json
CONSTANTS N, Bugs, PrintReq

Lim == 3
R0 == [kind |-> "profile", dia |-> "job", outer |-> TRUE, inner |-> TRUE, items |-> << "face" >>, avoid |-> << >>, depth |-> TRUE, tabs |-> "none",
       steps |-> 0, limit |-> Lim]
Lists(S, n) == UNION {[1 .. k -> S] : k \in 1 .. n}
Tabs == {"none", "wire", "edge", "equal", "wide"}
Odd == {"edge", "solid", "compound", "vertex", "text"}
Profiles == {[R0 EXCEPT !.dia = d, !.outer = o[1], !.inner = o[2], !.items = i, !.tabs = t, !.steps = s] :
               d \in {"job", "tool", "none"}, o \in BOOLEAN \X BOOLEAN, i \in Lists({"face", "wire", "edge", "solid"}, 2), t \in {"none", "edge", "equal"}, s \in {0, Lim, Lim + 1}}
            \cup {[R0 EXCEPT !.items = i, !.tabs = t] : i \in Lists({"face"} \cup Odd, 2), t \in Tabs}
Wires == {[R0 EXCEPT !.kind = "wire", !.dia = d, !.items = i, !.tabs = t, !.steps = s] :
               d \in {"job", "tool", "none"}, i \in Lists({"wire", "edge"}, 2), t \in Tabs, s \in {0, Lim, Lim + 1}}
            \cup {[R0 EXCEPT !.kind = "wire", !.items = i] : i \in Lists({"wire"} \cup Odd, 2)}
Pockets == {[R0 EXCEPT !.kind = "pocket", !.dia = d, !.items = i, !.avoid = a] :
               d \in {"job", "tool", "none"}, i \in Lists({"face", "level", "above", "tilted", "round"}, 2),
               a \in {<< >>} \cup Lists({"face", "level", "above", "tilted", "round"}, 2)}
            \cup {[R0 EXCEPT !.kind = "pocket", !.items = i, !.avoid = a] : i \in Lists({"face", "wire", "edge", "text"}, 2), a \in {<< >>, << "face" >>, << "wire" >>, << "face", "edge" >>}}
Drills == {[R0 EXCEPT !.kind = "drill", !.dia = d, !.items = i, !.depth = z] :
               d \in {"job", "tool", "none"}, i \in {<< >>} \cup Lists({"face", "wire", "point", "edge", "solid", "text"}, 2), z \in BOOLEAN}
All == Profiles \cup Wires \cup Pockets \cup Drills
(* Requests that come before                                                  *)
Before == {R0, [R0 EXCEPT !.dia = "none"], [R0 EXCEPT !.dia = "tool"], [R0 EXCEPT !.kind = "drill", !.items = << "point" >>], [R0 EXCEPT !.kind = "pocket", !.items = << "above" >>]}

VARIABLES bug, dia, ops, hist, bad
vars == << bug, dia, ops, hist, bad >>
(* dia: the job has a tool diameter                                           *)
Init == bug \in Bugs /\ dia \in BOOLEAN /\ ops = 0 /\ hist = << >> /\ bad = {}

(* ------------------------------- the planner ------------------------------- *)
Fits(r) == (r.dia = "job" /\ dia) \/ r.dia = "tool" \/ (r.dia = "none" /\ ~dia)
First(s) == IF s = << >> THEN << >> ELSE << s[1] >>
Caught(r) ==
  LET c == Reasons(r) IN
  CASE bug = "nodiameter" -> c \ {"diameter"}
    [] bug = "jobdiameter" -> IF r.dia = "tool" THEN c \cup {"diameter"} ELSE c
    [] bug = "wirediameter" -> IF r.kind = "wire" THEN c \ {"diameter"} ELSE c
    [] bug = "zerooffset" -> IF r.kind = "profile" /\ ~(r.outer /\ r.inner) THEN c \cup {"offsets"} ELSE c
    [] bug = "nooffsets" -> c \ {"offsets"}
    [] bug = "firstshape" -> Reasons([r EXCEPT !.items = First(@)])
    [] bug = "skipshape" -> IF Range(r.items) \cap Takes(r.kind) # {} THEN c \ {"shape"} ELSE c
    [] bug = "noavoid" -> c \ {"avoid"}
    [] bug = "firstavoid" -> Reasons([r EXCEPT !.avoid = First(@)])
    [] bug = "above" -> IF \A s \in Range(r.items) : s \in {"face", "level", "above"} THEN c \ {"shape"} ELSE c
    [] bug = "tilted" -> IF \A s \in Range(r.items) : s \in {"face", "level", "tilted"} THEN c \ {"shape"} ELSE c
    [] bug = "level" -> IF r.kind = "pocket" /\ "level" \in Range(r.items) THEN c \cup {"shape"} ELSE c
    [] bug = "levelavoid" -> IF r.kind = "pocket" /\ "level" \in Range(r.avoid) THEN c \cup {"avoid"} ELSE c
    [] bug = "notargets" -> c \ {"targets"}
    [] bug = "nodepth" -> c \ {"depth"}
    [] bug = "equaltabs" -> IF r.tabs = "equal" THEN c \ {"tabs"} ELSE c
    [] bug = "notabs" -> c \ {"tabs"}
    [] bug = "edgetabs" -> IF r.tabs = "edge" THEN c \cup {"tabs"} ELSE c
    [] bug = "nosteps" -> c \ {"steps"}
    [] bug = "onemore" -> IF r.steps = r.limit + 1 THEN c \ {"steps"} ELSE c
    [] bug = "oneless" -> IF r.kind \in {"profile", "wire"} /\ r.steps = r.limit THEN c \cup {"steps"} ELSE c
    [] bug = "drilldiameter" -> IF r.kind = "drill" /\ r.dia = "none" THEN c \cup {"diameter"} ELSE c
    [] OTHER -> c
(* out, added, kept                                                           *)
Answer(r) ==
  IF Caught(r) = {} THEN (IF bug = "empty" THEN << "job", 0, TRUE >> ELSE << "job", 1, TRUE >>)
  ELSE IF bug = "swallow" THEN << "job", 0, TRUE >>
  ELSE IF bug = "half" THEN << "error", 1, FALSE >>
  ELSE << "error", 0, TRUE >>

Req(r, last) ==
  /\ bad = {} /\ Fits(r)
  /\ LET a == Answer(r) IN
     /\ bad' = RequestViol(r, a[1], a[2], a[3]) \cup IF last THEN {"end"} ELSE {}
     /\ ops' = ops + a[2]
     /\ dia' = (dia \/ (a[1] = "job" /\ r.dia = "tool"))
  /\ hist' = Append(hist, r) /\ UNCHANGED bug
  /\ IF bug # "none" /\ bad' \ {"end"} # {} THEN PrintT(ToJson([kind |-> "bug", bug |-> bug, bad |-> bad'])) ELSE TRUE
  /\ IF PrintReq /\ last THEN PrintT(ToJson([kind |-> "hist", dia |-> dia, hist |-> hist'])) ELSE TRUE
Next == (\E r \in Before : Len(hist) < N /\ Req(r, FALSE)) \/ (\E r \in All : Req(r, TRUE))
Spec == Init /\ [][Next]_vars
Safe == bug = "none" => bad \subseteq {"end"}
=============================================================================
