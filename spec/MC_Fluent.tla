----------------------------- MODULE MC_Fluent ------------------------------
(* Design of the fluent interface on a small heap: jobs are objects that refer  *)
(* to a list of operations; requests are made on any job.  Every history of N   *)
(* requests is one behaviour; bug # "none" are deviations (sharing, updating in *)
(* place, state outside of jobs) that the clauses must reject.                 *)
EXTENDS Fluent, TLC, Json

CONSTANTS N, Bugs, PrintHist

VARIABLES bug, jobs, lists, glob, hist, known, bad
vars == << bug, jobs, lists, glob, hist, known, bad >>

NoTool == [given |-> FALSE, num |-> None, dia |-> None, feed |-> None, speed |-> None]
Tool(num, feed, speed) == [given |-> TRUE, num |-> num, dia |-> None, feed |-> feed, speed |-> speed]
(* tabs: whether the request uses the shared tab settings *)
Alphabet ==
  << [kind |-> "drill",   tool |-> NoTool, refuse |-> FALSE, tabs |-> FALSE],
     [kind |-> "wire",    tool |-> NoTool, refuse |-> FALSE, tabs |-> TRUE],
     [kind |-> "profile", tool |-> Tool(2000, None, 9000), refuse |-> FALSE, tabs |-> TRUE],
     [kind |-> "pocket",  tool |-> Tool(None, 500, None), refuse |-> FALSE, tabs |-> FALSE],
     [kind |-> "drill",   tool |-> Tool(3000, 700, 7000), refuse |-> TRUE, tabs |-> FALSE],
     [kind |-> "pocket",  tool |-> NoTool, refuse |-> TRUE, tabs |-> FALSE],
     [kind |-> "update",  tool |-> Tool(2000, None, None), refuse |-> FALSE, tabs |-> FALSE],
     [kind |-> "update",  tool |-> Tool(None, None, 9000), refuse |-> FALSE, tabs |-> FALSE],
     [kind |-> "update",  tool |-> Tool(None, 500, None), refuse |-> FALSE, tabs |-> FALSE] >>

Init == /\ bug \in Bugs
        /\ jobs = << [set |-> [num |-> 1000, dia |-> 2000, feed |-> 100, speed |-> 5000, pfeed |-> 40, cool |-> 0], list |-> 1, deriv |-> << 1 >>] >>
        /\ lists = << << >> >>
        /\ glob = [calls |-> 0, tabs |-> 0] /\ hist = << >> /\ known = {} /\ bad = {}

(* What can be seen of the heap. *)
Seen(js, ls, g) ==
  [i \in 1 .. Len(js) |->
    LET o == ls[js[i].list] IN
    [set |-> js[i].set, rest |-> 0, labels |-> [k \in 1 .. Len(o) |-> o[k].label], ops |-> o,
     text |-> << js[i].set, o, IF bug = "counter" THEN g.calls ELSE 0 >>]]

Request(h, k) ==
  LET r == Alphabet[k]
      j == jobs[h]
      after == ApplyTool(j.set, r.tool)
      segs == RequestSegs(j.set, r)
      ops == [i \in 1 .. Len(segs) |->
                [label |-> segs[i].label, key |-> k, set |-> segs[i].set,
                 state |-> IF r.tabs /\ bug = "tabstate" THEN glob.tabs ELSE IF bug = "cache" /\ ~r.tabs THEN glob.tabs ELSE 0]]
      (* a new list, or the old one extended *)
      shared == (bug = "sharelist") \/ (bug = "shareupdate" /\ r.kind = "update") \/ (bug = "sharechange" /\ Len(segs) = 2)
      newlists == IF shared THEN [lists EXCEPT ![j.list] = @ \o ops] ELSE Append(lists, (IF bug = "drops" /\ Len(segs) = 2 THEN << >> ELSE lists[j.list]) \o ops)
      newset == IF bug = "forgetfeed" /\ r.kind = "update" THEN [after EXCEPT !.feed = j.set.feed] ELSE after
      made == [set |-> newset, list |-> IF shared THEN j.list ELSE Len(newlists), deriv |-> Append(j.deriv, k)]
      inplace == (bug = "inplace" /\ r.kind = "update") \/ (bug = "inplacesame" /\ r.tool.given /\ after.num = j.set.num)
                 \/ (bug = "inplacerefused" /\ r.refuse)
      old == IF inplace THEN [jobs EXCEPT ![h] = [@ EXCEPT !.set = after]] ELSE jobs
      newjobs == IF r.refuse THEN old ELSE Append(old, made)
      finallists == IF r.refuse THEN (IF bug = "listrefused" THEN [lists EXCEPT ![j.list] = @ \o ops] ELSE lists) ELSE newlists
      newglob == [calls |-> glob.calls + 1, tabs |-> IF r.tabs THEN 1 ELSE glob.tabs]
      step == [kind |-> "request", h |-> h, req |-> r, ok |-> ~r.refuse]
      before == Seen(jobs, lists, glob)
      now == Seen(newjobs, finallists, newglob)
  IN
  /\ jobs' = newjobs /\ lists' = finallists /\ glob' = newglob
  /\ hist' = Append(hist, [h |-> h, k |-> k])
  /\ known' = IF r.refuse THEN known ELSE known \cup {<< made.deriv, now[Len(now)].text >>}
  /\ bad' = bad \cup StepViol(before, now, step)
                \cup (IF r.refuse THEN {} ELSE SameViol(known, made.deriv, now[Len(now)].text))
  /\ UNCHANGED bug
  /\ IF Len(hist') = N /\ PrintHist THEN PrintT(ToJson([kind |-> "hist", hist |-> hist'])) ELSE TRUE
  /\ IF bug # "none" /\ bad' # {} /\ bad = {} THEN PrintT(ToJson([kind |-> "bug", bug |-> bug, bad |-> bad'])) ELSE TRUE

Next == Len(hist) < N /\ \E h \in 1 .. Len(jobs), k \in 1 .. Len(Alphabet) : Request(h, k)
Spec == Init /\ [][Next]_vars

Safe == bug = "none" => bad = {}
(* Operations and settings of a job are those of its own derivation. *)
RECURSIVE Replay(_, _, _)
Replay(s, d, i) == IF i > Len(d) THEN << >> ELSE RequestSegs(s, Alphabet[d[i]]) \o Replay(ApplyTool(s, Alphabet[d[i]].tool), d, i + 1)
Own == bug = "none" => \A i \in 1 .. Len(jobs) :
         [k \in 1 .. Len(lists[jobs[i].list]) |-> lists[jobs[i].list][k].label] = Labels(Replay(jobs[1].set, jobs[i].deriv, 2))
=============================================================================
