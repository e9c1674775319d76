------------------------------- MODULE LifePath -------------------------------
(* The path-and-react policy for life surveys.  It plans the path with the      *)
(* largest expected number of regions in which life is met among the hexes      *)
(* ahead of the path, and then, looking first in every hex, takes samples where *)
(* life was read with high confidence, keeping near the path.  It believes a    *)
(* state like a robot's, with life only where it has read it.                   *)
EXTENDS LifeSurvey

\* directions in which a robot in hex p, entered in direction d, may go on
Onward(W, p, d) == {e \in Dirs : Beside(p, e) \in W.free /\ {d, e} # {NE, SE}}
RECURSIVE Pow(_, _)
Pow(q, n) == IF n = 0 THEN PS ELSE Mul(q, Pow(q, n - 1), PS)
\* expected number of regions with life (in 1e-6), having n[r] hexes of region r ahead of the path
Expect(P, n) == SumSeq([r \in DOMAIN n |-> (PS - Pow(PS - P[r], n[r])) \div 1000])
\* count the hexes ahead of p
Count(W, p, d, n) == [r \in DOMAIN n |-> n[r] + Cardinality({e \in Onward(W, p, d) : W.reg[Beside(p, e)] = r})]
NoPath == -1
\* the best that can be had from p on (n: counts so far, without p)
RECURSIVE Best(_, _, _, _, _)
Best(W, P, p, d, n) ==
  CHOOSE v \in {IF p \in W.exit THEN Expect(P, m)
                ELSE MaxSet({NoPath} \cup {Best(W, P, Beside(p, e), e, m) : e \in Onward(W, p, d)}) : m \in {Count(W, p, d, n)}} : TRUE
\* a sequence of hexes is a path from the start to an exit (direction of each step: the one that leads there)
Step(p, q) == {e \in Dirs : Beside(p, e) = q}
RECURSIVE Follows(_, _, _, _)
Follows(W, c, i, d) == IF i = Len(c) THEN c[i] \in W.exit
                       ELSE c[i] \notin W.exit /\ \E e \in Step(c[i], c[i + 1]) \cap Onward(W, c[i], d) : Follows(W, c, i + 1, e)
RECURSIVE Along(_, _, _, _, _, _)
Along(W, P, c, i, d, n) == CHOOSE v \in {IF i = Len(c) THEN Expect(P, m) ELSE Along(W, P, c, i + 1, CHOOSE e \in Dirs : Beside(c[i], e) = c[i + 1], m) : m \in {Count(W, c[i], d, n)}} : TRUE
Zero(W) == [r \in 1..W.n |-> 0]

\* ---- reacting
\* steps between two hexes
Apart(p, q) == LET dx == p[1] - q[1]
                   dy == p[2] - q[2]
               IN IF (dx < 0 /\ dy > 0) \/ (dx > 0 /\ dy < 0) THEN Abs(dx) + Abs(dy) ELSE Max2(Abs(dx), Abs(dy))
Off(c, p) == MinSet({9999} \cup {Apart(p, c[i]) : i \in DOMAIN c})
Blank == <<0, 0, 0>>
Believed0(W) == <<W.start[1], W.start[2], EAST, 0, Blank, [k \in 1..W.n |-> IF W.start \in W.reach[k] THEN (IF k = W.reg[W.start] THEN 1 ELSE 0) ELSE NoMatter]>>
Target(W, s, e) == s[5][e] = 1 /\ s[6][W.reg[Beside(s, e)]] < 3
Worthy(W, c, s, e) == (IF Target(W, s, e) THEN 10000 ELSE 0) - 100 * Off(c, Beside(s, e)) + (IF e = NE THEN 2 ELSE IF e = SE THEN 1 ELSE 0)
Stuck(W, s) == s[4] = 1 /\ Onward(W, <<s[1], s[2]>>, s[3]) = {}
Choose(W, c, s) ==
  IF s[4] = 0 THEN LOOK
  ELSE LET D == Onward(W, <<s[1], s[2]>>, s[3])
           b == CHOOSE e \in D : \A f \in D : Worthy(W, c, s, e) >= Worthy(W, c, s, f)
       IN IF \E e \in D : Target(W, s, e) THEN b + 3 ELSE b
\* what it believes after a (legal) action and observation
Believe(W, s, a, o) ==
  IF a = LOOK THEN [s EXCEPT ![4] = 1, ![5] = [i \in 1..3 |-> IF <<o \div 9, (o \div 3) % 3, o % 3>>[i] = 2 THEN 1 ELSE @[i]]]
  ELSE LET d == DirOf(a)
           p == Beside(s, d)
           k == W.reg[p]
           r == [s[6] EXCEPT ![k] = Max2(@, NewLevel(s, a))]
       IN IF p \in W.exit THEN OVER
          ELSE <<p[1], p[2], d, 0, Blank, [j \in 1..W.n |-> IF p \in W.reach[j] THEN r[j] ELSE NoMatter]>>
=============================================================================
