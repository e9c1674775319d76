------------------------------- MODULE TrackMC -------------------------------
(* The race-track rules checked on their own: every small map, every drive.     *)
EXTENDS RaceTrack
CONSTANTS W, H, MaxV
VARIABLES K, s
Maps == [1..H -> [1..W -> {OPEN, WALL, START, FINISH}]]
Init == /\ \E m \in Maps : K = [rows |-> m, g |-> 950000000, err |-> 200000000, wind |-> Cardinality({p \in (1..H) \X (1..W) : m[p[1]][p[2]] = OPEN}) % 2]
        /\ StartCells(K) # {} /\ s = START0
Next == \E a \in 0..8 : \E d \in Dist(K, s, a) : s' = d[1] /\ UNCHANGED K
Spec == Init /\ [][Next]_<<K, s>>
Speed == Abs(s[3]) <= MaxV /\ Abs(s[4]) <= MaxV
RECURSIVE Total(_)
Total(D) == IF D = {} THEN 0 ELSE LET d == CHOOSE x \in D : TRUE IN d[2] + Total(D \ {d})
SumsToOne == \A a \in 0..8 : Abs(Total(Dist(K, s, a)) - PS) <= 8
OnTrack == s \in {START0, OVER} \/ Cell(K, s[1], s[2]) \in {OPEN, START}
Standing == s \notin {START0, OVER} => Cell(K, s[1] - s[3], s[2] - s[4]) \in {OPEN, START}
\* the cells met form an unbroken path that starts at the car and ends at its goal, and reversing the drive meets the same cells
Path(dx, dy) ==
  LET M == Met(dx, dy) IN
  /\ \E c \in M : c.x = 0 /\ c.y = 0 /\ c.from = 0
  /\ \E c \in M : c.x = dx /\ c.y = dy /\ c.to = Horizon(dx, dy)
  /\ \A c \in M : c.from = 0 \/ \E d \in M : d.to = c.from
  /\ {<<c.x, c.y>> : c \in M} = {<<dx + c.x, dy + c.y>> : c \in Met(0 - dx, 0 - dy)}
  /\ M = {[c EXCEPT !.x = Sgn(dx) * c.x, !.y = Sgn(dy) * c.y] : c \in OnWay(dx, dy)}
ASSUME \A dx \in -7..7, dy \in -7..7 : Path(dx, dy)
=============================================================================
