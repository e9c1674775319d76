------------------------------ MODULE LifeSurvey ------------------------------
(* The rules of the life survey.  A survey K has                               *)
(*   K.pre   : the preamble, <<key, numbers>> (last one of a key counts);      *)
(*             probabilities in 1e-9, costs in 1e-6, coordinates as they are,   *)
(*             observation weights as whole numbers                             *)
(*   K.sep   : 1 if a separator line follows it                                 *)
(*   K.pic   : the picture of the map, lines from the top, characters -1 blank, *)
(*             0.. region a.., -2 anything else                                 *)
(*   K.known, K.tg : 1 and the list of hexes with life, if they are known       *)
(* A robot crosses a map of hexes eastwards.  It is <<x, y, d, u, n, r>>: in    *)
(* hex (x,y), having entered it in direction d; u: it has looked ahead here;    *)
(* n: life in the hex to the north-east, east, south-east; r: for each region   *)
(* the best thing done there (0 nothing, 1 visited, 2 visited life, 3 sampled   *)
(* life; 9: it does not matter any more).  OVER is the end.                     *)
EXTENDS FixedPoint, FiniteSets, TLC

NE == 1
EAST == 2
SE == 3
Dirs == {NE, EAST, SE}
OVER == <<>>
LOOK == 7          \* actions 1..3: go; 4..6: go and take a sample; 7: look ahead
Actions == 1..7
DirOf(a) == ((a - 1) % 3) + 1
Samples(a) == a \in 4..6
NOTHING == 27      \* observations 0..26: three confidences; 27: none
PENALTY == 100 * VS
Worth == <<0, 5 * VS, 20 * VS, 50 * VS>>   \* of level 0, 1, 2, 3
NoMatter == 9

\* ---- the file
Has(K, k) == \E i \in DOMAIN K.pre : K.pre[i][1] = k
Val(K, k) == K.pre[MaxSet({i \in DOMAIN K.pre : K.pre[i][1] = k})][2]
One(K, k) == Val(K, k)[1]
H(K) == Len(K.pic)
Regions(K) == 1 + MaxSet({0} \cup {K.pic[i][c] : <<i, c>> \in {q \in UNION {{i} \X DOMAIN K.pic[i] : i \in DOMAIN K.pic} : TRUE}})
Keys == {"startX", "startY", "baseCost", "lookaheadCost", "regionPriors", "obsDistributionLifeAbsent", "obsDistributionLifePresent"}
\* the picture is a checkerboard: (north-)east neighbours are (one up and) one or two characters to the right;
\* hex (x,y), y counted from the bottom, is drawn at character 2x-y (an even number of lines: 2x-y+1)
Col(K, x, y) == 2 * x - y + (1 - (H(K) % 2)) + 1
Line(K, y) == H(K) - y
InPic(K, x, y) == y \in 0..(H(K) - 1) /\ Col(K, x, y) \in 1..Len(K.pic[Line(K, y)])
Hex(K, x, y) == IF InPic(K, x, y) THEN K.pic[Line(K, y)][Col(K, x, y)] ELSE -1
Checkered(K) == \A i \in DOMAIN K.pic : \A c \in DOMAIN K.pic[i] : (i + c) % 2 = 1 => K.pic[i][c] = -1
WellFormed(K) ==
  /\ K.sep = 1 /\ \A k \in Keys : Has(K, k) /\ Len(Val(K, k)) > 0
  /\ Len(Val(K, "obsDistributionLifeAbsent")) = 3 /\ Len(Val(K, "obsDistributionLifePresent")) = 3
  /\ \A i \in DOMAIN K.pic : Len(K.pic[i]) > 0 /\ \A c \in DOMAIN K.pic[i] : K.pic[i][c] # -2
  /\ Checkered(K) /\ Len(Val(K, "regionPriors")) = Regions(K)
  /\ Hex(K, One(K, "startX"), One(K, "startY")) >= 0
MaxX(K) == (MaxSet({Len(K.pic[i]) : i \in DOMAIN K.pic}) + H(K)) \div 2 + 1
Free(K) == {p \in (0..MaxX(K)) \X (0..(H(K) - 1)) : Hex(K, p[1], p[2]) >= 0}

\* ---- the map
Beside(p, d) == CASE d = NE -> <<p[1] + 1, p[2] + 1>> [] d = EAST -> <<p[1] + 1, p[2]>> [] OTHER -> <<p[1], p[2] - 1>>
RECURSIVE Grow(_, _)
Grow(F, X) == LET Y == TLCEval(X \cup {p \in F : \E d \in Dirs : Beside(p, d) \in X}) IN IF Y = X THEN X ELSE Grow(F, Y)
\* what is derived from the file once: free hexes, their regions, from where each region can still be reached, priors
Survey(K) ==
  LET F == TLCEval(Free(K))
      n == Regions(K)
      w(k) == [i \in 1..3 |-> Mul(Val(K, k)[i], PS, SumSeq(Val(K, k)))]
      life == [i \in DOMAIN K.tg |-> <<K.tg[i][1], K.tg[i][2]>>]
  IN TLCEval([free |-> F, reg |-> [p \in F |-> Hex(K, p[1], p[2]) + 1], n |-> n,
      reach |-> [r \in 1..n |-> Grow(F, {p \in F : Hex(K, p[1], p[2]) + 1 = r})],
      exit |-> {p \in F : \A q \in F : q[2] = p[2] => q[1] <= p[1]},
      prior |-> [p \in F |-> IF K.known = 1 THEN (IF \E i \in DOMAIN life : life[i] = p THEN PS ELSE 0) ELSE Val(K, "regionPriors")[Hex(K, p[1], p[2]) + 1]],
      none |-> w("obsDistributionLifeAbsent"), some |-> w("obsDistributionLifePresent"),
      cost |-> One(K, "baseCost"), sample |-> 5 * One(K, "baseCost"), look |-> Mul(One(K, "lookaheadCost"), One(K, "baseCost"), VS),
      start |-> <<One(K, "startX"), One(K, "startY")>>])
Prior(W, p) == IF p \in W.free THEN W.prior[p] ELSE 0

\* ---- the rules
Bits == {<<i, j, k>> : i \in 0..1, j \in 0..1, k \in 0..1}
Pr(q, b) == IF b = 1 THEN q ELSE PS - q
\* arriving in hex p with chances q of life ahead and levels r
Arrive(W, p, d, q, r) ==
  IF p \in W.exit THEN {<<OVER, PS>>}
  ELSE {<<<<p[1], p[2], d, 0, b, [k \in 1..W.n |-> IF p \in W.reach[k] THEN r[k] ELSE NoMatter]>>,
          Mul(Mul(Pr(q[1], b[1]), Pr(q[2], b[2]), PS), Pr(q[3], b[3]), PS)>> : b \in Bits}
Start(W) == Arrive(W, W.start, EAST, [i \in 1..3 |-> Prior(W, Beside(W.start, i))], [k \in 1..W.n |-> IF k = W.reg[W.start] THEN 1 ELSE 0])
Legal(W, s, a) == IF a = LOOK THEN s[4] = 0
                  ELSE Beside(s, DirOf(a)) \in W.free /\ {s[3], DirOf(a)} # {NE, SE}
NewLevel(s, a) == IF s[5][DirOf(a)] = 0 THEN 1 ELSE IF Samples(a) THEN 3 ELSE 2
\* a set of <<next state, chance>>
Outcomes(W, s, a) ==
  IF s = OVER \/ ~Legal(W, s, a) THEN {<<s, PS>>}
  ELSE IF a = LOOK THEN {<<[s EXCEPT ![4] = 1], PS>>}
  ELSE LET d == DirOf(a)
           p == Beside(s, d)
           east == s[5][EAST] * PS
           q == [i \in 1..3 |-> IF (d = NE /\ i = SE) \/ (d = SE /\ i = NE) THEN east ELSE Prior(W, Beside(p, i))]
           k == W.reg[p]
       IN Arrive(W, p, d, q, [s[6] EXCEPT ![k] = Max2(@, NewLevel(s, a))])
Reward(W, s, a) ==
  IF s = OVER THEN 0
  ELSE IF ~Legal(W, s, a) THEN 0 - PENALTY
  ELSE IF a = LOOK THEN 0 - W.look
  ELSE LET o == s[6][W.reg[Beside(s, DirOf(a))]]
           m == NewLevel(s, a)
       IN (IF m > o THEN Worth[m + 1] - Worth[o + 1] ELSE 0) - (IF Samples(a) THEN W.sample ELSE W.cost)
\* chance of observation o after action a has led to s
Observe(W, s, a, o) ==
  IF s = OVER \/ a # LOOK THEN (IF o = NOTHING THEN PS ELSE 0)
  ELSE IF o = NOTHING THEN 0
  ELSE LET f(i, c) == IF s[5][i] = 1 THEN W.some[c + 1] ELSE W.none[c + 1]
       IN Mul(Mul(f(1, o \div 9), f(2, (o \div 3) % 3), PS), f(3, o % 3), PS)
\* levels of regions that are out of reach do not matter
Canon(W, s) == IF s = OVER THEN s ELSE [s EXCEPT ![6] = [k \in 1..W.n |-> IF <<s[1], s[2]>> \in W.reach[k] THEN @[k] ELSE NoMatter]]
=============================================================================
