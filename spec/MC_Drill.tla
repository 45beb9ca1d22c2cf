------------------------------ MODULE MC_Drill ------------------------------
(* Design of a drilling operation: every selection of up to N holes on a grid,  *)
(* the same hole selected twice included.  Every step is one move.             *)
EXTENDS Drill, TLC, Json
CONSTANTS N, Grid, Bugs, PrintReq
Depths == {-2000, 1500}

VARIABLES bug, req, pos, phase, todo, d, last, bad
vars == << bug, req, pos, phase, todo, d, last, bad >>

Spots == {<< 1000 * x, 1000 * y >> : x \in Grid, y \in Grid}
Safe == 1000
R == [holes |-> req.holes, depth |-> AbsV(req.depth), safe |-> Safe, firsts |-> 1]

Init == /\ bug \in Bugs
        /\ req \in [holes : UNION {[1 .. k -> Spots] : k \in 1 .. N}, depth : Depths]
        /\ pos = << 0, 0, 10000 >> /\ phase = "start" /\ last = 0 /\ bad = {}
        /\ todo = 1 .. Len(req.holes)
        /\ d = DrillInit([holes |-> req.holes])

Do(p) ==
  LET g == IF phase \in {"feed"} THEN 1 ELSE 0
      x == DrillStep(R, d, [g |-> g, s |-> pos, e |-> p])
  IN pos' = p /\ d' = x[1] /\ bad' = bad \cup x[2]

Start == /\ phase = "start" /\ phase' = "lift" /\ UNCHANGED << bug, req, pos, todo, d, last, bad >>
         /\ IF PrintReq THEN PrintT(ToJson([kind |-> "req", holes |-> req.holes, depth |-> req.depth])) ELSE TRUE
Lift == /\ phase = "lift" /\ todo # {} /\ phase' = "move" /\ UNCHANGED << bug, req, todo, last >>
        /\ IF bug = "nolift" /\ last # 0 THEN UNCHANGED << pos, d, bad >> ELSE Do(<< pos[1], pos[2], Safe >>)

Close(h) == IF bug = "farthest" THEN \A g \in todo : ~Nearer(req.holes[last], req.holes[h], req.holes[g], 0)
            ELSE \A g \in todo : ~Nearer(req.holes[last], req.holes[g], req.holes[h], 0)
First(h) == IF bug = "nearorigin" THEN \A g \in todo : ~Nearer(<< 0, 0 >>, req.holes[g], req.holes[h], 0) ELSE h = 1
Go == /\ phase = "move"
      /\ \E h \in todo :
           /\ IF last = 0 THEN First(h) ELSE IF bug = "asselected" THEN \A g \in todo : h <= g ELSE Close(h)
           /\ todo' = (IF bug = "forget" THEN {g \in todo : req.holes[g] # req.holes[h]} ELSE todo \ {h})
           /\ last' = h
           /\ Do(<< req.holes[h][1] + (IF bug = "beside" THEN 10 ELSE 0), req.holes[h][2], IF bug = "diagonal" THEN 0 ELSE pos[3] >>)
      /\ phase' = "down" /\ UNCHANGED << bug, req >>
Down == /\ phase = "down" /\ phase' = "feed" /\ UNCHANGED << bug, req, todo, last >>
        /\ Do(<< pos[1], pos[2], IF bug = "deeprapid" THEN -1000 ELSE 0 >>)
Feed == /\ phase = "feed" /\ UNCHANGED << bug, req, last >>
        /\ Do(<< pos[1], pos[2], IF bug = "signed" THEN req.depth ELSE IF bug = "shallow" THEN 10 - AbsV(req.depth) ELSE -AbsV(req.depth) >>)
        /\ phase' = (IF bug = "twice" /\ Cardinality(d.left) > Cardinality(todo) THEN "down" ELSE "lift")
        /\ todo' = (IF bug = "dropslast" /\ Cardinality(todo) = 1 THEN {} ELSE todo)
End == /\ phase = "lift" /\ todo = {} /\ phase' = "end" /\ UNCHANGED << bug, req, pos, todo, d, last >>
       /\ bad' = bad \cup DrillEnd(d)
       /\ IF bug # "none" /\ bad' # {} THEN PrintT(ToJson([kind |-> "bug", bug |-> bug, bad |-> bad'])) ELSE TRUE

Next == Start \/ Lift \/ Go \/ Down \/ Feed \/ End
Spec == Init /\ [][Next]_vars
Safety == bug = "none" => bad = {}
(* Every hole is drilled. *)
Done == (bug = "none" /\ phase = "end") => d.n = Len(req.holes)
=============================================================================
