---------------------------- MODULE TraceProfile ----------------------------
(* Programs of single profile operations.                                      *)
(* trace: a request (see Profile) and passes: sequence of passes, edge: per     *)
(* expected outline a sequence of points that may have to be passed, tol,       *)
(* every: sampling distance, judge: properties.                                 *)
EXTENDS Profile, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TF).traces
E == [t \in 1 .. Len(D) |-> Expected(D[t])]

VARIABLES t, n, o, done, before, bad, st
vars == << t, n, o, done, before, bad, st >>

T == D[t]
Judge(c) == \E j \in 1 .. Len(T.judge) : T.judge[j] = c

Init == t \in 1 .. Len(D) /\ n = 0 /\ o = 0 /\ done = {} /\ before = 0 /\ bad = << >> /\ st = [tabbed |-> 0, lateral |-> 0]

RECURSIVE SeqOf(_, _)
SeqOf(S, at) == IF S = {} THEN << >> ELSE LET c == CHOOSE x \in S : TRUE IN << [c |-> c, n |-> at] >> \o SeqOf(S \ {c}, at)
Log(S, at) == IF Len(bad) > 10 THEN bad ELSE bad \o SeqOf(S, at)

Open == (1 .. Len(E[t])) \ done
(* The outlines that may come next: holes of one face in any order.            *)
Candidates == LET g == CHOOSE g \in {E[t][k].group : k \in Open} : \A k \in Open : g <= E[t][k].group
              IN {k \in Open : E[t][k].group = g}

(* One pass; an outline is finished by its pass on depth.                      *)
Pass ==
  /\ n < Len(T.passes) /\ n' = n + 1 /\ UNCHANGED t
  /\ LET ps == T.passes[n + 1] z == Low(ps) IN
     IF o = 0 /\ Open = {}
     THEN /\ bad' = Log(IF Judge("C04") THEN {"C04.extra"} ELSE {}, n + 1) /\ UNCHANGED << o, done, before, st >>
     ELSE LET F == {k \in Candidates : Follows(E[t][k], ps, T.tol)}
              c == IF o # 0 THEN o ELSE IF F # {} THEN CHOOSE k \in F : TRUE ELSE CHOOSE k \in Candidates : TRUE
              x == E[t][c]
              last == z <= x.z + 1
          IN
          /\ bad' = Log((IF Judge("C04") THEN FollowViol(x, ps, T.edge[c], T.tol, T.every) ELSE {})
                        \cup (IF Judge("C05") THEN LayerViol(T, x, before, z) ELSE {})
                        \cup (IF Judge("C06") /\ T.tabs.kind # "none" THEN TabViol(T, x, ps, T.tabtol) ELSE {}), n + 1)
          /\ o' = IF last THEN 0 ELSE c
          /\ done' = done \cup {c}
          /\ before' = IF last THEN 0 ELSE z
          /\ st' = [tabbed |-> st.tabbed + (IF \E i \in 1 .. Len(ps) : Lateral(ps[i]) /\ ps[i].s[3] > z + 1 THEN 1 ELSE 0),
                    lateral |-> st.lateral + Len(Lat(ps))]

Missing == o # 0 \/ Open # {}
Finish ==
  /\ n = Len(T.passes) /\ n' = n + 1
  /\ PrintT(ToJson([t |-> t, passes |-> n, outlines |-> Len(E[t]), tabbed |-> st.tabbed, lateral |-> st.lateral,
       bad |-> Log((IF Missing /\ Judge("C04") THEN {"C04.missing"} ELSE {})
                   \cup (IF Missing /\ Judge("C05") THEN {"C05.depth"} ELSE {}), n)]))
  /\ UNCHANGED << t, o, done, before, bad, st >>

Next == Pass \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
