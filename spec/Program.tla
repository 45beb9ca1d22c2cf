------------------------------- MODULE Program -------------------------------
(* What a program must respect, block by block.  The same clauses judge the  *)
(* designed programs (MC_Program) and the recorded ones (TraceProgram).      *)
(*                                                                           *)
(* cfg  [unit, wcs, path, rapid, safe, cool]  cool: 70, 80 or -1             *)
(* A monitor state is [m: machine, seg: number of the current segment (0 =   *)
(* header), fresh: no motion yet in this segment].                           *)
EXTENDS Rs274, Settings, FiniteSets

ModesSet(cfg, m) ==
  /\ m.dist = 900 /\ m.plane = 170 /\ m.fmode = 940
  /\ m.unit = cfg.unit /\ m.wcs = cfg.wcs /\ m.path = cfg.path
  /\ m.comp = 400 /\ m.cancelled

(* Modes that must not change once motion may happen.                        *)
SameModes(m, n) ==
  /\ m.dist = n.dist /\ m.plane = n.plane /\ m.fmode = n.fmode /\ m.unit = n.unit
  /\ m.wcs = n.wcs /\ m.path = n.path /\ m.comp = n.comp

Clear(cfg, seg) == IF seg.label = "Drill" THEN cfg.safe ELSE cfg.rapid
Floor(cfg, seg) == IF seg.label = "Drill" THEN 0 ELSE cfg.safe

(* ---- C01: rapid motion ---- *)
RapidViol(cfg, seg, fresh, m, b) ==
  LET tx == ToX(m, b) ty == ToY(m, b) tz == ToZ(m, b)
      c == Clear(cfg, seg) - 1
      sideX == HasWord(b, "X") /\ (~m.kx \/ tx # m.px)
      sideY == HasWord(b, "Y") /\ (~m.ky \/ ty # m.py)
      side == sideX \/ sideY
      zChanges == HasWord(b, "Z") /\ (~m.kz \/ tz # m.pz)
      rapid == Mode(m, b) = 0
      known == HasWord(b, "Z") \/ m.kz
  IN (IF fresh /\ ~(rapid /\ ~side /\ HasWord(b, "Z") /\ tz >= c) THEN {"C01.begin"} ELSE {})
     \cup (IF rapid /\ side /\ ~fresh /\ ~(known /\ tz >= c /\ (m.kz /\ m.pz >= c)) THEN {"C01.side"} ELSE {})
     \cup (IF rapid /\ zChanges /\ side THEN {"C01.diagonal"} ELSE {})
     \cup (IF rapid /\ zChanges /\ m.kz /\ tz < m.pz /\ tz < Floor(cfg, seg) - 1 THEN {"C01.down"} ELSE {})
     \cup (IF rapid /\ (~known \/ tz < -1) THEN {"C01.below"} ELSE {})

(* ---- C08: conditions of a cutting move ---- *)
CutViol(cfg, seg, m, b) ==
  LET n == Exec(m, b)
      tx == ToX(m, b) ty == ToY(m, b) tz == ToZ(m, b)
      still == m.kx /\ m.ky /\ tx = m.px /\ ty = m.py
      moves == ~still \/ tz # m.pz \/ Mode(m, b) # 10
      wanted == IF still /\ tz < m.pz /\ Mode(m, b) = 10 THEN seg.set.pfeed ELSE seg.set.feed
  IN IF Mode(m, b) = 0 \/ ~moves THEN {}
     ELSE (IF n.spindle # 30 THEN {"C08.spindle"} ELSE {})
          \cup (IF n.tool # seg.set.num THEN {"C08.tool"} ELSE {})
          \cup (IF seg.set.speed # None /\ n.speed # seg.set.speed THEN {"C08.speed"} ELSE {})
          \cup (IF n.cool # (IF cfg.cool = None THEN 90 ELSE cfg.cool) THEN {"C08.coolant"} ELSE {})
          \cup (IF n.feed # wanted THEN {"C08.feed"} ELSE {})

ChangeViol(cfg, m, b) ==
  IF AnyOf({60}, b.m)
  THEN (IF m.spindle # 50 THEN {"C08.change_spindle"} ELSE {})
       \cup (IF m.cool # 90 THEN {"C08.change_coolant"} ELSE {})
       \cup (IF ~m.home THEN {"C08.change_home"} ELSE {})
       \cup (IF ~m.paused THEN {"C08.change_pause"} ELSE {})
       \cup (IF Exec(m, b).tool = m.tool THEN {"C08.needless"} ELSE {})
       \cup (IF Exec(m, b).tloh # Exec(m, b).tool THEN {"C08.length"} ELSE {})
  ELSE IF HasWord(b, "T") THEN {"C08.needless"} ELSE {}

(* ---- C10: order of the program ---- *)
FormViol(cfg, m, b) ==
  LET n == Exec(m, b) IN
  (IF ~WellFormed(b) THEN {"C10.line"} ELSE {})
  \cup (IF m.ended THEN {"C10.after_end"} ELSE {})
  \cup (IF AnyOf({30, 40}, b.m) /\ ~ModesSet(cfg, n) THEN {"C10.modes_before_spindle"} ELSE {})
  \cup (IF IsMove(m, b) /\ ~ModesSet(cfg, n) THEN {"C10.modes"} ELSE {})
  \cup (IF HasAxis(b) /\ Mode(m, b) \notin {0, 10, 20, 30} THEN {"C10.axis"} ELSE {})
  \cup (IF m.spindle # 50 /\ ~SameModes(m, n) THEN {"C10.mode_change"} ELSE {})
  \cup (IF n.ended /\ ~m.ended /\ (n.spindle # 50 \/ (m.spindle # 50)) THEN {"C10.end_spindle"} ELSE {})
  \cup (IF n.ended /\ ~m.ended /\ m.cool # 90 THEN {"C10.end_coolant"} ELSE {})

BlockViol(cfg, seg, fresh, m, b) ==
  FormViol(cfg, m, b) \cup ChangeViol(cfg, m, b)
  \cup (IF IsMove(m, b) THEN RapidViol(cfg, seg, fresh, m, b) \cup CutViol(cfg, seg, m, b) ELSE {})

NoSeg == [label |-> "Header", set |-> [num |-> None, dia |-> None, feed |-> None, speed |-> None,
                                       pfeed |-> None, cool |-> None]]

(* Which segment a label starts: the next expected one; an unexpected        *)
(* change, or an unexpected operation, is reported and skipped.              *)
IsChange(label) == label \in {"Tool Change", "Speed Change"}
LabelViol(exp, k, label) ==
  IF k < Len(exp) /\ exp[k + 1].label = label THEN {}
  ELSE IF IsChange(label) THEN {"C08.needless"}
  ELSE IF k < Len(exp) /\ IsChange(exp[k + 1].label) THEN {"C08.missing"}
  ELSE {"C10.order"}
NextSeg(exp, k, label) ==
  IF \E j \in (k + 1) .. Len(exp) : exp[j].label = label /\ \A i \in (k + 1) .. (j - 1) : IsChange(exp[i].label)
  THEN CHOOSE j \in (k + 1) .. Len(exp) :
         exp[j].label = label /\ \A i \in (k + 1) .. (j - 1) : IsChange(exp[i].label)
  ELSE IF IsChange(label) THEN k ELSE IF k < Len(exp) THEN k + 1 ELSE k
=============================================================================
