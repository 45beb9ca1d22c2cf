----------------------------- MODULE MC_Pocket ------------------------------
(* Design of a pocket operation over a strip of cells: which passes are cut,   *)
(* in which order, and what happens to the stock.                              *)
(*                                                                             *)
(* Areas are runs of cells with a floor, avoid areas are cells with a top;     *)
(* depths count downwards from the job surface.  Every request is one initial  *)
(* state; every step is one pass.  bug = "none" is the design, the others are   *)
(* deviations that the clauses must reject.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NCells, NAreas, Depths, Bugs, PrintReq

Cells == 1 .. NCells
Runs == {<< a, b >> \in Cells \X Cells : a <= b}
Area == [run : Runs, d : Depths]
Avoid == [cell : Cells, top : 0 .. 3]
CellsOf(F) == F.run[1] .. F.run[2]

VARIABLES bug, req, todo, h, bad, started
vars == << bug, req, todo, h, bad, started >>

Reqs == [areas : UNION {[1 .. n -> Area] : n \in 1 .. NAreas},
         avoids : {<< >>} \cup {<< a >> : a \in Avoid}, sd : 0 .. 3]

(* ---- the design ---- *)
RECURSIVE SortUp(_)
SortUp(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN << m >> \o SortUp(S \ {m})
DepthList(r) == SortUp({r.areas[i].d : i \in DOMAIN r.areas})

Region(r, d) ==
  LET own == UNION {CellsOf(r.areas[i]) : i \in {i \in DOMAIN r.areas :
               IF bug = "suboverlap" THEN r.areas[i].d = d ELSE r.areas[i].d >= d}}
      av == {r.avoids[i].cell : i \in {i \in DOMAIN r.avoids :
               IF bug = "avoiddeep" THEN r.avoids[i].top >= d ELSE IF bug = "avoidstrict" THEN r.avoids[i].top < d ELSE r.avoids[i].top <= d}}
  IN IF bug = "noavoid" THEN own ELSE own \ av

(* Layers from start (excluded) to d in steps of sd, ending on d. *)
RECURSIVE Layers(_, _, _)
Layers(from, d, sd) ==
  IF from + sd >= d THEN << d >> ELSE << from + sd >> \o Layers(from + sd, d, sd)

(* Regions that are split apart start on their own: connected runs of cells. *)
Parts(S) ==
  LET Start == {c \in S : c - 1 \notin S}
      End(c) == CHOOSE e \in S : e >= c /\ (\A x \in c .. e : x \in S) /\ e + 1 \notin S
  IN {c .. End(c) : c \in Start}

RECURSIVE Build(_, _, _)
(* done: regions already cut, << cells, depth >> *)
Build(r, ds, done) ==
  IF ds = << >> THEN << >>
  ELSE LET d == Head(ds)
           parts == Parts(Region(r, d))
           From(p) == LET over == {x \in done : IF bug = "suboverlap" THEN x[1] \cap p # {} ELSE p \subseteq x[1]}
                      IN IF over = {} THEN 0 ELSE CHOOSE z \in {x[2] : x \in over} : \A y \in {x[2] : x \in over} : y <= z
           LayersOf(p) == IF r.sd = 0 THEN << d >>
                          ELSE LET l == Layers(IF bug = "nostart" THEN From(p) + r.sd ELSE From(p), d, r.sd)
                               IN IF bug = "skiplast" /\ Len(l) > 1 THEN SubSeq(l, 1, Len(l) - 1) ELSE l
           RECURSIVE Cut(_)
           Cut(ps) == IF ps = {} THEN << >>
                      ELSE LET p == CHOOSE p \in ps : TRUE
                           IN [k \in DOMAIN LayersOf(p) |-> << p, LayersOf(p)[k] >>] \o Cut(ps \ {p})
       IN Cut(IF bug = "onepart" /\ Cardinality(parts) > 1 THEN {CHOOSE p \in parts : TRUE} ELSE parts)
          \o Build(r, Tail(ds), done \cup {<< p, d >> : p \in parts})

Plan(r) == IF bug = "deepfirst" THEN LET b == Build(r, DepthList(r), {}) IN [k \in DOMAIN b |-> b[Len(b) + 1 - k]]
           ELSE Build(r, DepthList(r), {})

(* ---- the clauses ---- *)
MayCut(c, z) ==
  /\ \E i \in DOMAIN req.areas : c \in CellsOf(req.areas[i]) /\ req.areas[i].d >= z
  /\ \A i \in DOMAIN req.avoids : req.avoids[i].cell = c => req.avoids[i].top > z
Floor(c) ==
  LET ok == {d \in Depths : MayCut(c, d) /\ \E i \in DOMAIN req.areas : c \in CellsOf(req.areas[i]) /\ req.areas[i].d = d}
  IN IF ok = {} THEN 0 ELSE CHOOSE d \in ok : \A e \in ok : e <= d

Init == /\ bug \in Bugs /\ req \in Reqs /\ started = FALSE /\ todo = << >> /\ bad = {} /\ h = [c \in Cells |-> 0]

Start ==
  /\ ~started /\ started' = TRUE /\ todo' = Plan(req) /\ UNCHANGED << bug, req, h, bad >>
  /\ IF PrintReq THEN PrintT(ToJson([kind |-> "req", areas |-> req.areas, avoids |-> req.avoids, sd |-> req.sd])) ELSE TRUE

Pass ==
  /\ started /\ todo # << >> /\ todo' = Tail(todo)
  /\ LET p == Head(todo)[1] z == Head(todo)[2] IN
     /\ h' = [c \in Cells |-> IF c \in p /\ h[c] < z THEN z ELSE h[c]]
     /\ bad' = bad \cup (IF \E c \in p : ~MayCut(c, z) THEN {"C02"} ELSE {})
                   \cup (IF req.sd > 0 /\ \E c \in p : z - h[c] > req.sd THEN {"C05"} ELSE {})
                   \cup (IF req.sd = 0 /\ \A i \in DOMAIN req.areas : req.areas[i].d # z THEN {"C05"} ELSE {})
  /\ UNCHANGED << bug, req, started >>

Final ==
  /\ started /\ todo = << >> /\ "end" \notin bad
  /\ bad' = bad \cup {"end"} \cup (IF \E c \in Cells : h[c] < Floor(c) THEN {"C03"} ELSE {})
  /\ IF bug # "none" /\ bad' \ {"end"} # {} THEN PrintT(ToJson([kind |-> "bug", bug |-> bug, bad |-> bad' \ {"end"}])) ELSE TRUE
  /\ UNCHANGED << bug, req, todo, h, started >>

Next == Start \/ Pass \/ Final
Spec == Init /\ [][Next]_vars

Safe == bug = "none" => bad \subseteq {"end"}
=============================================================================
