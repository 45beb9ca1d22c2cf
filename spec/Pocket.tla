------------------------------- MODULE Pocket --------------------------------
(* What a pocket operation may and must cut.                                  *)
(*                                                                            *)
(* request p: [areas: sequence of [outer: polygon, holes: sequence of         *)
(*   polygons, z: floor], avoids: sequence of [outer: polygon, z: top],       *)
(*   ro, ri, ra: distances kept (grown) outer boundary, holes and avoid areas, *)
(*   step: stepover, sd: stepdown (0: none), R: tool radius]                  *)
(* All numbers are thousandths of a millimetre, heights are below zero.       *)
EXTENDS Geo, FiniteSets

Ids(S) == 1 .. Len(S)

(* Sampling of a straight move.                                               *)
Samples(s, e, d) == MaxV(AbsV(e[1] - s[1]), AbsV(e[2] - s[2])) \div d + 1

(* Tool centre q belongs to the region of area F, with slack sl (negative:     *)
(* well inside).                                                              *)
InArea(p, F, q, sl) ==
  /\ Inside(F.outer, q, p.ro + sl)
  /\ \A h \in Ids(F.holes) : ~Inside(F.holes[h], q, p.ri - sl - 1)

(* q stays clear of the avoid areas that reach up to z.                       *)
ClearAt(p, z, q, sl) ==
  \A a \in Ids(p.avoids) : p.avoids[a].z >= z => ~Inside(p.avoids[a].outer, q, p.ra - sl - 1)

(* C02: the tool centre may be at q at height z.                              *)
Allowed(p, q, z, sl) ==
  /\ \E f \in Ids(p.areas) : p.areas[f].z <= z + 1 /\ InArea(p, p.areas[f], q, sl)
  /\ ClearAt(p, z + 1, q, sl)

(* Farther than d from every island and avoid area that matters for F.        *)
FarFromIslands(p, F, q, d) ==
  /\ \A h \in Ids(F.holes) : ~Inside(F.holes[h], q, p.ri + d)
  /\ \A a \in Ids(p.avoids) : p.avoids[a].z >= F.z => ~Inside(p.avoids[a].outer, q, p.ra + d)

(* C03: q has to be within a stepover of the path at the floor of F.          *)
MustReach(p, F, q, m) == InArea(p, F, q, -m) /\ FarFromIslands(p, F, q, p.step + m)

(* The straight way from q to o, but for its first m, stays outside of every   *)
(* area cut at z or deeper.  A gap enclosed by several areas counts as island. *)
Escapes(p, z, q, o, m) ==
  \/ Len(p.areas) = 1
  \/ LET n == Samples(q, o, 100) IN
     \A k \in 1 .. n :
       LET x == Lerp(q, o, k, n) IN
       \/ SegNear(q, q, x, m)
       \/ \A g \in Ids(p.areas) : p.areas[g].z <= z => ~Inside(p.areas[g].outer, x, p.ro)

(* C03: q lies on the boundary of what is cut at the floor of F: the inner     *)
(* point i is well inside, no other area reaches q, and o is outside of all.   *)
OnBoundary(p, f, q, i, o, e, m) ==
  LET F == p.areas[f] IN
  /\ Inside(F.outer, q, p.ro + e) /\ ~Inside(F.outer, q, p.ro - e)
  /\ InArea(p, F, i, -m)
  /\ FarFromIslands(p, F, q, p.step + m)
  /\ \A g \in Ids(p.areas) : g # f /\ p.areas[g].z <= F.z => ~Inside(p.areas[g].outer, q, p.ro + m)
  /\ Escapes(p, F.z, q, o, 4 * m)

(* Stock at q is judged only away from every island and avoid area.           *)
Clean(p, q, d) ==
  /\ \A f \in Ids(p.areas) : \A h \in Ids(p.areas[f].holes) : ~Inside(p.areas[f].holes[h], q, p.ri + d)
  /\ \A a \in Ids(p.avoids) : ~Inside(p.avoids[a].outer, q, p.ra + d)

Floors(p) == {p.areas[f].z : f \in Ids(p.areas)}

CutOk(p, s, e, sl, d) ==
  LET n == Samples(s, e, d) z == MinV(s[3], e[3])
  IN \A k \in 0 .. n : Allowed(p, Lerp(s, e, k, n), z, sl)
BadSample(p, s, e, sl, d) ==
  LET n == Samples(s, e, d) z == MinV(s[3], e[3])
      k == CHOOSE k \in 0 .. n : ~Allowed(p, Lerp(s, e, k, n), z, sl)
  IN << Lerp(s, e, k, n)[1], Lerp(s, e, k, n)[2], z >>
=============================================================================
