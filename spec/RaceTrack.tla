------------------------------ MODULE RaceTrack ------------------------------
(* The rules of the race track.  A track K has                                 *)
(*   K.rows : the map, rows of cells OPEN, WALL, START, FINISH; every place     *)
(*            outside the map is a wall                                         *)
(*   K.g, K.err : discount and error probability (1e-9)                           *)
(*   K.wind : 1 if an error is a gust of wind, 0 if it is a slip                *)
(* A car is <<x, y, vx, vy>>; before the start it is START0, after the finish   *)
(* it is OVER.  Actions 0..8 command the accelerations (-1..1) x (-1..1).       *)
EXTENDS FixedPoint, FiniteSets, TLC

OPEN == 0
WALL == 1
START == 2
FINISH == 3
START0 == <<-1, 0, 0, 0>>
OVER == <<-2, 0, 0, 0>>

Height(K) == Len(K.rows)
Width(K) == Len(K.rows[1])
Cell(K, x, y) == IF x \in 0..(Width(K) - 1) /\ y \in 0..(Height(K) - 1) THEN K.rows[y + 1][x + 1] ELSE WALL
StartCells(K) == {<<x, y>> \in (0..(Width(K) - 1)) \X (0..(Height(K) - 1)) : Cell(K, x, y) = START}
Accel(a) == <<(a \div 3) - 1, (a % 3) - 1>>

-----------------------------------------------------------------------------
(* The car moves in a straight line from the centre of its cell to the centre  *)
(* of the next.  Time runs from 0 to 2|dx||dy| (or 2|d| along an axis); a cell  *)
(* is met if the line crosses its inside, between the times From and To.        *)
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Horizon(dx, dy) == IF dx = 0 /\ dy = 0 THEN 1 ELSE 2 * Max2(1, Abs(dx)) * Max2(1, Abs(dy))
\* bounds of the time at which coordinate i (counted in the direction of travel) is the one the car is in
Lo(i, d, o, H) == IF d = 0 THEN (IF i = 0 THEN 0 ELSE H) ELSE (2 * i - 1) * Max2(1, Abs(o))
Hi(i, d, o, H) == IF d = 0 THEN (IF i = 0 THEN H ELSE 0) ELSE (2 * i + 1) * Max2(1, Abs(o))
Met(dx, dy) ==
  LET H == TLCEval(Horizon(dx, dy))
  IN {c \in {[x |-> Sgn(dx) * i, y |-> Sgn(dy) * j,
              from |-> Max2(0, Max2(Lo(i, dx, dy, H), Lo(j, dy, dx, H))),
              to |-> Min2(H, Min2(Hi(i, dx, dy, H), Hi(j, dy, dx, H)))]
             : i \in 0..Abs(dx), j \in 0..Abs(dy)} : c.from < c.to}
\* the same, tabulated (the table is evaluated once; TrackMC checks that both agree)
MetTable == [dx \in 0..12, dy \in 0..12 |-> Met(dx, dy)]
OnWay(dx, dy) == IF Abs(dx) > 12 \/ Abs(dy) > 12 THEN {[c EXCEPT !.x = Abs(c.x), !.y = Abs(c.y)] : c \in Met(dx, dy)} ELSE MetTable[Abs(dx), Abs(dy)]
\* what the first wall or finish cell on the way is
Fate(K, x, y, dx, dy) ==
  LET hit == TLCEval({c \in OnWay(dx, dy) : Cell(K, x + Sgn(dx) * c.x, y + Sgn(dy) * c.y) \in {WALL, FINISH}})
  IN IF hit = {} THEN OPEN
     ELSE LET f == CHOOSE c \in hit : \A d \in hit : c.from <= d.from IN Cell(K, x + Sgn(dx) * f.x, y + Sgn(dy) * f.y)
\* the car after applying an acceleration
Drive(K, s, ax, ay) ==
  LET vx == s[3] + ax
      vy == s[4] + ay
      f == TLCEval(Fate(K, s[1], s[2], vx, vy))
  IN IF f = FINISH THEN OVER ELSE IF f = WALL THEN START0 ELSE <<s[1] + vx, s[2] + vy, vx, vy>>

Moves == {-1, 0, 1} \X {-1, 0, 1}
Gusts == Moves \ {<<0, 0>>}
Plus(u, w) == <<u[1] + w[1], u[2] + w[2]>>
\* a distribution over next states: pairs <<state, probability>>, impossible ones left out; W: the ways a move
\* can turn out, <<tag, next state, probability>> (the tag keeps equal ones apart)
RECURSIVE SumWays(_)
SumWays(W) == IF W = {} THEN 0 ELSE LET w == CHOOSE x \in W : TRUE IN w[3] + SumWays(W \ {w})
Gather(W) == LET P == TLCEval({w \in W : w[3] > 0}) IN {<<t, SumWays({w \in P : w[2] = t})>> : t \in {w[2] : w \in P}}
\* the distributions of the nine actions: action a is entry a + 1
Dists(K, s) ==
  IF s = OVER THEN [a \in 1..9 |-> {<<OVER, PS>>}]
  ELSE IF s = START0 THEN
    LET C == TLCEval(StartCells(K))
        n == Cardinality(C)
        D == TLCEval({<<<<c[1], c[2], 0, 0>>, (2 * PS + n) \div (2 * n)>> : c \in C})
    IN [a \in 1..9 |-> D]
  ELSE IF K.wind = 1 THEN
    LET at == TLCEval([u \in (-2..2) \X (-2..2) |-> Drive(K, s, u[1], u[2])])
    IN [a \in 1..9 |-> Gather({<<<<0, 0>>, at[Accel(a - 1)], PS - K.err>>} \cup
                              {<<w, at[Plus(Accel(a - 1), w)], K.err \div 8>> : w \in Gusts})]
  ELSE
    LET at == TLCEval([u \in Moves |-> Drive(K, s, u[1], u[2])])
    IN [a \in 1..9 |-> Gather({<<<<1, 0>>, at[Accel(a - 1)], PS - K.err>>, <<<<0, 0>>, at[<<0, 0>>], K.err>>})]
Dist(K, s, a) == Dists(K, s)[a + 1]
Cost(K, s) == IF s = OVER THEN 0 ELSE IF s = START0 /\ K.g = PS THEN 0 ELSE VS
=============================================================================
