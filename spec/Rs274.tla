-------------------------------- MODULE Rs274 --------------------------------
(* A machine executing RS274 blocks: modal state and position.  Codes are    *)
(* G/M numbers times ten, coordinates thousandths of a unit.                 *)
(*                                                                           *)
(* block: [g, m: sequences of codes; has: sequence of letters;               *)
(*         x, y, z, i, j, k, f, s, t, h: integers; ok: BOOLEAN; kind]        *)
EXTENDS Integers, Sequences

In(v, s) == \E n \in 1 .. Len(s) : s[n] = v
AnyOf(S, s) == \E n \in 1 .. Len(s) : s[n] \in S
PickOr(S, s, old) == IF AnyOf(S, s) THEN s[CHOOSE n \in 1 .. Len(s) : s[n] \in S] ELSE old
HasWord(b, a) == In(a, b.has)

MotionCodes  == {0, 10, 20, 30, 800, 810, 820, 830, 840, 850, 860, 870, 880, 890}
PlaneCodes   == {170, 180, 190}
DistCodes    == {900, 910}
FeedCodes    == {930, 940, 950}
UnitCodes    == {200, 210}
CompCodes    == {400, 410, 420}
TloCodes     == {430, 490}
WcsCodes     == {540, 550, 560, 570, 580, 590}
PathCodes    == {610, 611, 640}
RetractCodes == {980, 990}
SpinCodes    == {500, 960, 970}
ArcCodes     == {901, 911}
NonModal     == {40, 100, 280, 300, 530, 920}
GGroups == {MotionCodes, PlaneCodes, DistCodes, FeedCodes, UnitCodes, CompCodes, TloCodes,
            WcsCodes, PathCodes, RetractCodes, SpinCodes, ArcCodes, NonModal}
StopCodes    == {0, 10, 20, 300, 600}
SpindleCodes == {30, 40, 50}
CoolCodes    == {70, 80, 90}
ToolCodes    == {60}
MGroups == {StopCodes, SpindleCodes, CoolCodes, ToolCodes}

Known(S, s) == \A n \in 1 .. Len(s) : \E G \in S : s[n] \in G
OnePerGroup(S, s) == \A n1, n2 \in 1 .. Len(s) : n1 < n2 => ~ \E G \in S : s[n1] \in G /\ s[n2] \in G

(* A line the controller accepts: known codes, at most one per modal group,  *)
(* axis words only with a motion, arcs with a centre, T and H with a change. *)
WellFormed(b) ==
  /\ b.ok
  /\ Known(GGroups, b.g) /\ Known(MGroups, b.m)
  /\ OnePerGroup(GGroups, b.g) /\ OnePerGroup(MGroups, b.m)
  /\ (HasWord(b, "I") \/ HasWord(b, "J")) <=> AnyOf({20, 30}, b.g)
  /\ (HasWord(b, "H") => AnyOf({430}, b.g))
  /\ (AnyOf({430}, b.g) => HasWord(b, "H"))
  /\ (AnyOf({0, 10, 20, 30}, b.g) => (HasWord(b, "X") \/ HasWord(b, "Y") \/ HasWord(b, "Z")))
  /\ (HasWord(b, "F") => b.f > 0)
  /\ (HasWord(b, "S") => b.s >= 0)
  /\ ~ (AnyOf({280, 300}, b.g) /\ AnyOf({0, 10, 20, 30}, b.g))

PowerOn(tool) ==
  [px |-> 0, py |-> 0, pz |-> 0, kx |-> FALSE, ky |-> FALSE, kz |-> FALSE,
   mode |-> -1, dist |-> -1, plane |-> -1, fmode |-> -1, unit |-> -1, wcs |-> -1, path |-> -1,
   comp |-> -1, tlo |-> -1, tloh |-> -1, cancelled |-> FALSE,
   spindle |-> 50, speed |-> -1, cool |-> 90, tool |-> tool, pend |-> -1, feed |-> -1,
   home |-> FALSE, paused |-> FALSE, ended |-> FALSE]

HasAxis(b) == HasWord(b, "X") \/ HasWord(b, "Y") \/ HasWord(b, "Z")
Mode(m, b) == PickOr(MotionCodes, b.g, m.mode)
GoesHome(b) == AnyOf({280, 300}, b.g)
IsMove(m, b) == HasAxis(b) /\ ~GoesHome(b) /\ Mode(m, b) \in {0, 10, 20, 30}
ToX(m, b) == IF HasWord(b, "X") THEN b.x ELSE m.px
ToY(m, b) == IF HasWord(b, "Y") THEN b.y ELSE m.py
ToZ(m, b) == IF HasWord(b, "Z") THEN b.z ELSE m.pz

(* The modal state after a block, in the order of execution of RS274:       *)
(* feed, speed, tool, spindle, coolant, modes, home, motion, stop.           *)
Exec(m, b) ==
  LET mv == IsMove(m, b)
      hm == GoesHome(b)
      change == AnyOf({60}, b.m)
  IN
  [m EXCEPT
     !.feed = IF HasWord(b, "F") THEN b.f ELSE @,
     !.speed = IF HasWord(b, "S") THEN b.s ELSE @,
     !.pend = IF HasWord(b, "T") THEN b.t ELSE @,
     !.tool = IF change THEN (IF HasWord(b, "T") THEN b.t ELSE m.pend) ELSE @,
     !.spindle = PickOr(SpindleCodes, b.m, IF AnyOf({20, 300}, b.m) THEN 50 ELSE @),
     !.cool = PickOr(CoolCodes, b.m, IF AnyOf({20, 300}, b.m) THEN 90 ELSE @),
     !.plane = PickOr(PlaneCodes, b.g, @),
     !.unit = PickOr(UnitCodes, b.g, @),
     !.comp = PickOr(CompCodes, b.g, @),
     !.tlo = PickOr(TloCodes, b.g, @),
     !.tloh = IF AnyOf({430}, b.g) THEN b.h ELSE IF AnyOf({490}, b.g) THEN -1 ELSE @,
     !.wcs = PickOr(WcsCodes, b.g, @),
     !.path = PickOr(PathCodes, b.g, @),
     !.dist = PickOr(DistCodes, b.g, @),
     !.fmode = PickOr(FeedCodes, b.g, @),
     !.cancelled = @ \/ AnyOf({800}, b.g),
     !.mode = Mode(m, b),
     !.px = IF mv /\ HasWord(b, "X") THEN b.x ELSE @,
     !.py = IF mv /\ HasWord(b, "Y") THEN b.y ELSE @,
     !.pz = IF mv /\ HasWord(b, "Z") THEN b.z ELSE @,
     !.kx = IF hm THEN FALSE ELSE @ \/ (mv /\ HasWord(b, "X")),
     !.ky = IF hm THEN FALSE ELSE @ \/ (mv /\ HasWord(b, "Y")),
     !.kz = IF hm THEN FALSE ELSE @ \/ (mv /\ HasWord(b, "Z")),
     !.home = IF hm THEN TRUE ELSE IF mv THEN FALSE ELSE @,
     !.paused = IF AnyOf({0, 10}, b.m) THEN TRUE ELSE IF mv THEN FALSE ELSE @,
     !.ended = @ \/ AnyOf({20, 300}, b.m)]
=============================================================================
