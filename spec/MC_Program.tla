----------------------------- MODULE MC_Program -----------------------------
(* The design of a program: header, one part per request, end.  Every history *)
(* of at most N requests from a small alphabet is generated, printed block by *)
(* block the way a job must print it, executed on the Rs274 machine and       *)
(* judged by the clauses of Program.  The same clauses judge real programs.   *)
(*                                                                            *)
(* bug = "none" is the design; the other values are small deviations that the *)
(* clauses must reject (they keep the clauses from being vacuous).            *)
EXTENDS Program, TLC, Json

CONSTANTS N, WithBugs, PrintHist

VARIABLES bug, cfg, init, set, reqs, todo, m, seg, exp, fresh, bad, phase, segset
vars == << bug, cfg, init, set, reqs, todo, m, seg, exp, fresh, bad, phase, segset >>

Bugs == IF ~WithBugs THEN {"none"} ELSE
        {"none", "nolift", "diagonal", "lowside", "deeprapid", "plungefeed", "nochange", "needless",
         "nostop", "nohome", "nopause", "stalespeed", "keepcool", "nocool", "wrongtool", "forget",
         "latemodes", "modechange", "afterend", "nospindle", "doubleg", "order"}

(* ---- blocks ---- *)
Blk(g, mm) == [kind |-> "code", ok |-> TRUE, g |-> g, m |-> mm, has |-> << >>, x |-> 0, y |-> 0, z |-> 0,
               i |-> 0, j |-> 0, k |-> 0, f |-> 0, s |-> 0, t |-> 0, h |-> 0, label |-> "", owner |-> TRUE]
X(b, v) == [b EXCEPT !.has = Append(@, "X"), !.x = v]
Y(b, v) == [b EXCEPT !.has = Append(@, "Y"), !.y = v]
Z(b, v) == [b EXCEPT !.has = Append(@, "Z"), !.z = v]
IJ(b, v, w) == [b EXCEPT !.has = @ \o << "I", "J" >>, !.i = v, !.j = w]
F(b, v) == [b EXCEPT !.has = Append(@, "F"), !.f = v]
S(b, v) == IF v = None THEN b ELSE [b EXCEPT !.has = Append(@, "S"), !.s = v]
Cmt(label) == [Blk(<< >>, << >>) EXCEPT !.kind = "comment", !.label = label]
Blank == [Blk(<< >>, << >>) EXCEPT !.kind = "blank"]

CoolM == IF cfg.cool = None \/ bug = "nocool" THEN << >> ELSE << cfg.cool >>
Start(speed) == S(Blk(<< >>, << 30 >> \o CoolM), speed)
Stop == Blk(<< >>, << 50 >> \o (IF cfg.cool = None \/ bug = "keepcool" THEN << >> ELSE << 90 >>))
Home == Blk(<< 300 >>, << >>)
Safety ==
  << Blk((IF bug = "doubleg" THEN << 900, 910 >> ELSE << 900 >>) \o << cfg.wcs, cfg.path, 500, 170, 940 >>, << >>),
     Blk(<< 490, 400, 800 >>, << >>), Blk(<< cfg.unit >>, << >>), Home >>

Header ==
  << Cmt("Job") >> \o (IF bug = "latemodes" THEN << >> ELSE Safety)
  \o (IF bug = "nospindle" THEN << >> ELSE << Start(init.speed) >>)

Change(n) ==
  (IF bug = "nostop" THEN << >> ELSE << Stop >>)
  \o (IF bug = "nohome" THEN << >> ELSE << Home >>)
  \o (IF bug = "nopause" THEN << >> ELSE << Blk(<< >>, << 10 >>) >>)
  \o << [Blk(<< 430 >>, << 60 >>) EXCEPT !.has = << "T", "H" >>,
                                         !.t = IF bug = "wrongtool" THEN n.num + 1 ELSE n.num, !.h = n.num],
        Start(IF bug = "stalespeed" THEN set.speed ELSE n.speed) >>

Rap == Blk(<< 0 >>, << >>)
Cut(s) == F(Blk(<< 10 >>, << >>), s.feed)
Plunge(s, z) == Z(F(Blk(<< 10 >>, << >>), IF bug = "plungefeed" THEN s.feed ELSE s.pfeed), z)

(* One closed loop at depth z, entered at (x, y); the first side is an arc.  *)
Loop(s, x, y, z) ==
  (IF bug = "nolift" THEN << >> ELSE << Z(Rap, cfg.rapid) >>)
  \o (IF bug = "diagonal" THEN << Z(Y(X(Rap, x), y), cfg.safe) >>
      ELSE << Y(X(Rap, x), y), Z(Rap, IF bug = "deeprapid" THEN z ELSE cfg.safe) >>)
  \o << Plunge(s, z),
        F(IJ(Y(X(Blk(<< 20 >>, << >>), x + 4000), y), 2000, 0), s.feed),
        Y(Cut(s), y - 3000), Y(X(Cut(s), x), y) >>
  \o (IF bug = "lowside" THEN << X(Rap, x + 1000) >> ELSE << >>)
  \o (IF bug = "modechange" THEN << Blk(<< 910 >>, << >>) >> ELSE << >>)

Hole(s, x, y) ==
  << Z(Rap, cfg.safe), Y(X(Rap, x), y), Z(Rap, 0), Plunge(s, -2000) >>

Body(kind, s) ==
  IF kind = "drill" THEN Hole(s, 0, 0) \o Hole(s, 5000, 1000)
  ELSE Loop(s, 0, 0, -1000) \o Loop(s, 0, 0, -2000)

(* What is printed for a request; set is the state of the job before it.     *)
Emit(r) ==
  LET n == ApplyTool(set, r.tool)
      ch == ChangeSegs(set, r.tool)
      label == IF ch = << >> THEN "" ELSE ch[1].label
      change == IF bug = "needless" /\ ch = << >> /\ r.tool.given
                  THEN << Cmt("Speed Change"), Start(n.speed), Blank >>
                ELSE IF bug = "nochange" \/ ch = << >> THEN << >>
                ELSE << Cmt(label) >> \o (IF label = "Tool Change" THEN Change(n) ELSE << Start(n.speed) >>) \o << Blank >>
      op == IF r.kind = "update" THEN << >> ELSE << Cmt(Label(r.kind)) >> \o Body(r.kind, n) \o << Blank >>
  IN IF bug = "order" THEN op \o change ELSE change \o op

Footer ==
  (IF bug = "forget" THEN << >> ELSE Safety \o << Stop >>) \o << Blk(<< >>, << 300 >>) >>
  \o (IF bug = "afterend" THEN << Blk(<< 900 >>, << >>) >> ELSE << >>)

(* ---- the alphabet ---- *)
Tool(num, speed, feed) == [given |-> TRUE, num |-> num, dia |-> None, feed |-> feed, speed |-> speed]
NoTool == [given |-> FALSE, num |-> None, dia |-> None, feed |-> None, speed |-> None]
Tools == { NoTool, Tool(1000, None, None), Tool(0, 9000000, None), Tool(2000, None, 100500),
           Tool(None, 9050000, None), Tool(None, None, 500000) }
Requests ==
  { [kind |-> k, tool |-> t] : k \in {"profile", "drill"}, t \in Tools }
  \cup { [kind |-> "update", tool |-> t] : t \in Tools \ {NoTool} }

Inits == { [num |-> n, dia |-> 2000, feed |-> 100000, speed |-> sp, pfeed |-> 40000, cool |-> 0] :
             n \in {None, 1000}, sp \in {None, 9000000} }
Cfgs == { [unit |-> 210, wcs |-> 540, path |-> 640, rapid |-> 10000, safe |-> 1000, cool |-> c] : c \in {None, 80} }

Init ==
  /\ bug \in Bugs /\ cfg \in Cfgs /\ init \in Inits
  /\ bug # "none" => (cfg.cool = 80 /\ init.num = 1000 /\ init.speed # None)
  /\ set = init /\ reqs = << >> /\ todo = Header /\ m = PowerOn(init.num)
  /\ seg = 0 /\ exp = << >> /\ fresh = FALSE /\ bad = {} /\ phase = "run" /\ segset = init

(* Print the next block and execute it.                                      *)
Step ==
  /\ todo # << >>
  /\ LET b == Head(todo) IN
     /\ todo' = Tail(todo)
     /\ IF b.kind = "comment" /\ b.label # "Job"
        THEN /\ bad' = bad \cup LabelViol(exp, seg, b.label) \cup (IF m.spindle = 50 THEN {"C10.start"} ELSE {})
             /\ seg' = NextSeg(exp, seg, b.label) /\ fresh' = TRUE /\ UNCHANGED m
        ELSE IF b.kind # "code" THEN UNCHANGED << m, seg, fresh, bad >>
        ELSE /\ bad' = bad \cup BlockViol(cfg, IF seg = 0 \/ seg > Len(exp) THEN NoSeg ELSE exp[seg], fresh, m, b)
             /\ m' = Exec(m, b)
             /\ fresh' = (fresh /\ ~IsMove(m, b))
             /\ UNCHANGED seg
  /\ UNCHANGED << bug, cfg, init, set, reqs, exp, phase, segset >>

Request ==
  /\ todo = << >> /\ phase = "run" /\ Len(reqs) < N
  /\ \E r \in Requests :
       /\ reqs' = Append(reqs, r)
       /\ todo' = Emit(r)
       /\ exp' = exp \o RequestSegs(set, r)
       /\ set' = ApplyTool(set, r.tool)
  /\ UNCHANGED << bug, cfg, init, m, seg, fresh, bad, phase, segset >>

End ==
  /\ todo = << >> /\ phase = "run" /\ reqs # << >>
  /\ phase' = "end" /\ todo' = Footer
  /\ UNCHANGED << bug, cfg, init, set, reqs, m, seg, exp, fresh, bad, segset >>

EndBad ==
  (IF ~m.ended THEN {"C10.end"} ELSE {})
  \cup (IF seg # Len(exp) THEN {"C10.complete"} ELSE {})

Finish ==
  /\ todo = << >> /\ phase = "end"
  /\ phase' = "done"
  /\ bad' = bad \cup EndBad
  /\ IF bug = "none" /\ PrintHist
     THEN PrintT(ToJson([kind |-> "hist", init |-> init, cool |-> cfg.cool, reqs |-> reqs])) ELSE TRUE
  /\ IF bug # "none" /\ bad' # {}
     THEN PrintT(ToJson([kind |-> "bug", bug |-> bug, bad |-> bad'])) ELSE TRUE
  /\ UNCHANGED << bug, cfg, init, set, reqs, todo, m, seg, exp, fresh, segset >>

Next == Step \/ Request \/ End \/ Finish
Spec == Init /\ [][Next]_vars

(* The design respects every clause.                                         *)
Clean == bug = "none" => bad = {}
(* The settings of the job are those of its history.                         *)
Tracks == bug = "none" /\ phase = "done" => exp = HistorySegs(init, reqs, 1)
=============================================================================
