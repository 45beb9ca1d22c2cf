---------------------------- MODULE TracePreview ----------------------------
(* Previews of real jobs: plane, ops, shown, flat (see Preview).                *)
EXTENDS Preview, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.TF).traces
VARIABLES t, n, bad
vars == << t, n, bad >>
T == D[t]
RECURSIVE SeqOf(_, _)
SeqOf(S, at) == IF S = {} THEN << >> ELSE LET c == CHOOSE x \in S : TRUE IN << [c |-> c, n |-> at] >> \o SeqOf(S \ {c}, at)

(* One operation per step, then the job as a whole *)
Init == t \in 1 .. Len(D) /\ n = 0 /\ bad = << >>
Op == /\ n < Len(T.ops) /\ n' = n + 1 /\ UNCHANGED t
      /\ bad' = bad \o (IF Len(T.shown) < n + 1 THEN << [c |-> "C12.operations", n |-> n + 1] >>
                        ELSE SeqOf(Match(T.plane, T.ops[n + 1], T.shown[n + 1], 1, 1, 3, 8), n + 1))
Finish == /\ n = Len(T.ops) /\ n' = n + 1 /\ UNCHANGED << t, bad >>
          /\ LET b == IF Len(T.shown) # Len(T.ops) THEN {"C12.operations"}
                      ELSE IF Flatten(T.shown) = T.flat THEN {} ELSE Match(T.plane, Flatten(T.ops), T.flat, 1, 1, 3, 8)
             IN PrintT(ToJson([t |-> t, bad |-> bad \o SeqOf(b, n), moves |-> Len(Flatten(T.ops)), edges |-> Len(T.flat)]))
Next == Op \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
