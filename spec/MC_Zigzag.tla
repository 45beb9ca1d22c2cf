----------------------------- MODULE MC_Zigzag ------------------------------
(* Boundaries: all rectangles around a W x 1 grid from every corner in both     *)
(* directions, K of the grid points linked in every order, every sequence of    *)
(* queries.  Fillings: the regions below.  bug # "none": deviations.            *)
EXTENDS Zigzag, TLC, Json
CONSTANTS W, K, Bugs, PrintHist, Fill

VARIABLES bug, poly, links, unused, picks, bad
vars == << bug, poly, links, unused, picks, bad >>

Corners == << << 0, 0 >>, << W, 0 >>, << W, 1 >>, << 0, 1 >> >>
Rot(s, k) == [i \in 1 .. Len(s) |-> s[((i + k - 1) % Len(s)) + 1]]
Rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
Polys == {Rot(Corners, k) : k \in 0 .. 3} \cup {Rot(Rev(Corners), k) : k \in 0 .. 3}
Points == {<< x, y >> : x \in 0 .. W, y \in {0, 1}}

RECURSIVE Orders(_, _)
Orders(S, k) == IF k = 0 THEN {<< >>} ELSE UNION {{<< p >> \o o : o \in Orders(S \ {p}, k - 1)} : p \in S}
SetOf(s) == {s[i] : i \in 1 .. Len(s)}

Found(w) == IF bad' # {} /\ bad = {} /\ bug # "none" THEN PrintT(ToJson([kind |-> "bug", bug |-> bug, bad |-> bad'])) ELSE TRUE

(* --------------------------- boundary queries --------------------------- *)
RECURSIVE Unsorted(_, _, _)
Unsorted(pl, ls, i) ==
  IF i > Len(pl) THEN << >>
  ELSE LET a == pl[i] b == pl[(i % Len(pl)) + 1] IN
       << a >> \o SelectSeq(ls, LAMBDA q : OnSide(a, b, q)) \o Unsorted(pl, ls, i + 1)
R0 == Expand(poly, SetOf(links), 1)

None == << << -9, -9 >> >>
(* The design may answer with any walk. *)
Answers(p) ==
  LET rest == unused \ {p}
      P == IF bug = "unsorted" THEN Unsorted(poly, links, 1) ELSE R0
  IN IF bug = "lastnone" /\ Cardinality(rest) = 1 THEN {None}
     ELSE IF bug = "nonone" /\ rest = {} THEN {<< p >>}
     ELSE IF rest = {} THEN {None}
     ELSE IF bug = "usedend" /\ SetOf(links) \ unused # {} THEN {Forth(P, Position(P, p), 1, SetOf(links) \ {p}, Len(P))}
     ELSE IF bug = "passes" THEN LET w == Forth(P, Position(P, p), 1, rest, Len(P)) IN
            IF Cardinality(rest) = 1 THEN {w} ELSE {w \o Forth(P, Position(P, w[Len(w)]), 1, rest \ {w[Len(w)]}, Len(P))}
     ELSE IF bug = "chord" THEN {<< w[Len(w)] >> : w \in Walks(P, p, unused)}
     ELSE IF bug = "shortwalk" THEN {Tail(w) : w \in {v \in Walks(P, p, unused) : Len(v) > 1}}
     ELSE IF bug = "stopsearly" THEN {SubSeq(w, 1, Len(w) - 1) : w \in {v \in Walks(P, p, unused) : Len(v) > 1}}
     ELSE Walks(P, p, unused)

Query(p) ==
  \E a \in Answers(p) :
    LET none == a = None w == IF none THEN << >> ELSE a IN
    /\ unused' = unused \ ({p} \cup (IF bug = "keepsend" \/ w = << >> THEN {} ELSE {w[Len(w)]}))
    /\ bad' = bad \cup WalkViol(R0, p, unused, none, w)
              \cup (IF ~none /\ w # << >> /\ w[Len(w)] \in unused' THEN {"C15.used"} ELSE {})
    /\ picks' = Append(picks, Cardinality({q \in unused : q[1] < p[1] \/ (q[1] = p[1] /\ q[2] < p[2])}))
    /\ UNCHANGED << bug, poly, links >>
    /\ Found(0)
    /\ IF unused' = {} /\ PrintHist THEN PrintT(ToJson([kind |-> "ring", poly |-> poly, links |-> links, picks |-> picks'])) ELSE TRUE

(* -------------------------------- filling -------------------------------- *)
S == 1000
Rect(x0, y0, x1, y1) == << << x0 * S, y0 * S >>, << x1 * S, y0 * S >>, << x1 * S, y1 * S >>, << x0 * S, y1 * S >> >>
Lat(s) == [i \in 1 .. Len(s) |-> << s[i][1] * S, s[i][2] * S >>]
Regions == <<
  [outers |-> << Rect(0, 0, 4, 3) >>, inners |-> << >>],
  [outers |-> << Rect(0, 0, 4, 4) >>, inners |-> << Rect(1, 1, 2, 3) >>],
  [outers |-> << Rect(0, 0, 5, 4) >>, inners |-> << Rect(1, 1, 2, 2), Rect(3, 2, 4, 3) >>],
  [outers |-> << Rect(0, 0, 2, 3), Rect(3, 1, 5, 5) >>, inners |-> << >>],
  [outers |-> << Rect(0, 0, 2, 2), Rect(0, 4, 2, 6) >>, inners |-> << >>],
  [outers |-> << Lat(<< <<0,0>>, <<5,0>>, <<5,4>>, <<3,4>>, <<3,2>>, <<2,2>>, <<2,4>>, <<0,4>> >>) >>, inners |-> << >>],
  [outers |-> << Lat(<< <<0,0>>, <<1,0>>, <<1,2>>, <<2,2>>, <<2,0>>, <<3,0>>, <<3,2>>, <<4,2>>, <<4,0>>, <<5,0>>, <<5,4>>, <<0,4>> >>) >>, inners |-> << >>],
  [outers |-> << Lat(<< <<0,0>>, <<4,0>>, <<4,1>>, <<1,1>>, <<1,2>>, <<4,2>>, <<4,5>>, <<0,5>>, <<0,4>>, <<3,4>>, <<3,3>>, <<0,3>> >>) >>, inners |-> << >>]
>>

Parts(R) == R.outers \o R.inners
RECURSIVE Sort(_)
Sort(X) == IF X = {} THEN << >> ELSE LET m == Min0(X) IN << m >> \o Sort(X \ {m})
CrossXs(R, y) ==
  Sort(UNION {LET P == Parts(R)[k] IN
              {P[i][1] : i \in {j \in 1 .. Len(P) : LET a == P[j] b == P[(j % Len(P)) + 1] IN
                                  a[1] = b[1] /\ (a[2] < y) # (b[2] < y)}} : k \in 1 .. Len(Parts(R))})
RowPieces(R, y) ==
  LET xs == CrossXs(R, y) IN
  IF bug = "bridge" /\ xs # << >> THEN << << xs[1], y, xs[Len(xs)], y >> >>
  ELSE [i \in 1 .. Len(xs) \div 2 |-> << xs[2 * i - 1], y, xs[2 * i], y >>]
RECURSIVE PiecesFrom(_, _, _)
PiecesFrom(R, y, k) ==
  IF y > Max0(AllYs(R)) THEN << >>
  ELSE (IF (bug = "skiprow" /\ k = 1) \/ (bug = "wide" /\ k % 2 = 1) THEN << >>
        ELSE IF bug = "uneven" /\ k = 1 THEN RowPieces(R, y + 200)
        ELSE IF bug = "onepiece" /\ Len(RowPieces(R, y)) > 1 THEN << RowPieces(R, y)[1] >> ELSE RowPieces(R, y))
       \o PiecesFrom(R, y + S, k + 1)

Other(m, p) == IF A(m) = p THEN B(m) ELSE A(m)
Ends(ps) == UNION {{A(ps[i]), B(ps[i])} : i \in 1 .. Len(ps)}
RingOf(R, ends, p) ==
  LET k == CHOOSE k \in 1 .. Len(Parts(R)) : \E i \in 1 .. Len(Parts(R)[k]) :
             LET a == Parts(R)[k][i] b == Parts(R)[k][(i % Len(Parts(R)[k])) + 1] IN p = a \/ OnSide(a, b, p)
  IN Expand(Parts(R)[k], ends, 1)

RECURSIVE Route(_, _, _, _, _)
(* todo: pieces left; cur: sequence so far, ending at an end point *)
Route(R, ends, todo, cur, k) ==
  IF todo = << >> THEN << cur >>
  ELSE IF bug = "norestart" /\ k > 40 THEN << cur >>
  ELSE LET p == cur[Len(cur)]
           open == Ends(todo)
           P == RingOf(R, ends, p)
           ws == {w \in {Forth(P, Position(P, p), d, open, Len(P)) : d \in {1, -1}} : w # << >>}
       IN IF ws = {} THEN (IF bug = "norestart" THEN << cur >>
                           ELSE << cur >> \o Route(R, ends, Tail(todo), << A(todo[1]), B(todo[1]) >>, k + 1))
          ELSE LET w == CHOOSE w \in ws : \A v \in ws : Len(w) <= Len(v)
                   e == w[Len(w)]
                   i == CHOOSE i \in 1 .. Len(todo) : e \in {A(todo[i]), B(todo[i])}
                   rest == SelectSeq(todo, LAMBDA m : m # todo[i])
                   link == IF bug = "shortcut" THEN << e >> ELSE w
               IN Route(R, ends, IF bug = "twice" /\ k = 2 THEN rest \o << todo[i] >> ELSE rest, cur \o link \o << Other(todo[i], e) >>, k + 1)

Sequences_(R) ==
  LET ps0 == PiecesFrom(R, Min0(AllYs(R)) + 500, 0)
      ps == IF bug = "overrun" THEN [i \in 1 .. Len(ps0) |-> << ps0[i][1], ps0[i][2], ps0[i][3] + 100, ps0[i][4] >>] ELSE ps0
  IN IF bug = "overrun" THEN [i \in 1 .. Len(ps) |-> << A(ps[i]), B(ps[i]) >>]
     ELSE Route(R, Ends(ps), Tail(ps), << A(ps[1]), B(ps[1]) >>, 0)

Xs == [i \in 1 .. 25 |-> 200 * i + 50]
Try(k) ==
  /\ Fill /\ picks = << >> /\ picks' = << k >>
  /\ bad' = FillViol(Regions[k], S, Sequences_(Regions[k]), Xs, 0)
  /\ UNCHANGED << bug, poly, links, unused >>
  /\ Found(0)
  /\ IF PrintHist THEN PrintT(ToJson([kind |-> "region", outers |-> Regions[k].outers, inners |-> Regions[k].inners])) ELSE TRUE

Init ==
  /\ bug \in Bugs /\ picks = << >> /\ bad = {}
  /\ IF Fill THEN poly = << >> /\ links = << >> /\ unused = {}
     ELSE poly \in Polys /\ links \in Orders(Points, K) /\ unused = SetOf(links)
Next == (~Fill /\ \E p \in unused : Query(p)) \/ \E k \in 1 .. Len(Regions) : Try(k)
Spec == Init /\ [][Next]_vars
Safe == bug = "none" => bad = {}
=============================================================================
