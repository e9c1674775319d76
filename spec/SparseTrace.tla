------------------------------- MODULE SparseTrace -------------------------------
(* Operations on the real vectors and matrices, each with its result, against    *)
(* the register machine of Sparse.  The machine's registers are carried along;   *)
(* only which superfluous zeros are stored is taken from the trace.              *)
EXTENDS Sparse, TLC, Json, IOUtils
CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES l, pl, C, D, K, A, viol
vars == <<l, pl, C, D, K, A, viol>>
E == Trace[l]
M == Trace[pl]
Ob(name, cond) == IF "P23" \in Props THEN (IF cond THEN {} ELSE {<<"P23", name>>}) ELSE {}
Tag(vs) == {<<v[1], v[2], l, M.run>> : v \in vs}
Fresh == [i \in 1..4 |-> [v |-> <<>>, s |-> {}]]
Fresh2 == [i \in 1..4 |-> <<>>]
Fresh3 == [i \in 1..3 |-> [n |-> 0, c |-> <<>>]]
Init == l = 1 /\ pl = 0 /\ C = Fresh /\ D = Fresh2 /\ K = Fresh3 /\ A = Fresh3 /\ viol = {}
Problem == E.e = "Problem" /\ l' = l + 1 /\ pl' = l /\ C' = Fresh /\ D' = Fresh2 /\ K' = Fresh3 /\ A' = Fresh3 /\ UNCHANGED viol
R == E.r + 1
Cx == C[E.x + 1]
Cy == C[E.y + 1]
Dx == D[E.x + 1]
Dy == D[E.y + 1]
Aa == A[E.a + 1]
Pairs == [k \in 1..(Len(E.in) \div 2) |-> <<E.in[2 * k - 1], E.in[2 * k]>>]
Triples == [k \in 1..(Len(E.in) \div 3) |-> <<E.in[3 * k - 2], E.in[3 * k - 1], E.in[3 * k]>>]
One(n) == [i \in 1..n |-> 1]
Nil(n) == [i \in 1..n |-> 0]
At1(q) == {e[1] + 1 : e \in {q[k] : k \in DOMAIN q}}
\* sparse results: value and most that may be stored
SparseOps == {"cset", "cread", "c2c", "d2c", "colc", "onec", "zc", "mulcc", "cAc", "ecc", "ecolc", "add", "sub", "cadd", "csub", "cscale", "mall", "mone", "mcd", "mcc"}
SparseOp ==
  CASE E.op \in {"cset", "cread"} -> [v |-> FromList(E.n, Pairs), s |-> At1(Pairs)]
    [] E.op = "c2c" -> Cx
    [] E.op = "d2c" -> Exact(Dx)
    [] E.op = "colc" -> Exact(Column(Aa, E.n + 1))
    [] E.op \in {"onec", "mall"} -> Exact(One(E.n))
    [] E.op = "zc" -> Exact(Nil(Len(C[R].v)))
    [] E.op = "mulcc" -> Exact(MatVec(Aa, Cx.v))
    [] E.op = "cAc" -> Exact(VecMat(Cx.v, Aa))
    [] E.op = "ecc" -> [v |-> Map2(Times, Cx.v, Cy.v), s |-> Cx.s \cap Cy.s]
    [] E.op = "ecolc" -> [v |-> Map2(Times, Column(Aa, E.n + 1), Cx.v), s |-> Cx.s]
    [] E.op = "add" -> [v |-> Map2(Plus, Cx.v, Cy.v), s |-> Cx.s \cup Cy.s]
    [] E.op = "sub" -> [v |-> Map2(Minus, Cx.v, Cy.v), s |-> Cx.s \cup Cy.s]
    [] E.op = "cadd" -> [v |-> Map2(Plus, C[R].v, Cx.v), s |-> C[R].s \cup Cx.s]
    [] E.op = "csub" -> [v |-> Map2(Minus, C[R].v, Cx.v), s |-> C[R].s \cup Cx.s]
    [] E.op = "cscale" -> [v |-> [i \in DOMAIN C[R].v |-> E.n * C[R].v[i]], s |-> C[R].s]
    [] E.op = "mone" -> [v |-> Keep(One(Len(Cx.v)), Cx.s), s |-> Cx.s]
    [] E.op = "mcd" -> [v |-> Keep(Dx, Cy.s), s |-> Cy.s]
    [] OTHER -> [v |-> Keep(Cx.v, Cy.s), s |-> Cx.s \cap Cy.s]
DenseOps == {"dset", "dio", "d2d", "c2d", "cold", "oned", "zd", "mulcd", "dA", "cA", "edd", "edc", "ecold", "max", "maxa", "dadd", "dsub", "dscale"}
DenseOp ==
  CASE E.op = "dset" -> E.in
    [] E.op \in {"dio", "d2d"} -> Dx
    [] E.op = "c2d" -> Cx.v
    [] E.op = "cold" -> Column(Aa, E.n + 1)
    [] E.op = "oned" -> One(E.n)
    [] E.op = "zd" -> Nil(Len(D[R]))
    [] E.op = "mulcd" -> MatVec(Aa, Cx.v)
    [] E.op = "dA" -> VecMat(Dx, Aa)
    [] E.op = "cA" -> VecMat(Cx.v, Aa)
    [] E.op = "edd" -> Map2(Times, Dx, Dy)
    [] E.op = "edc" -> Map2(Times, Dx, Cy.v)
    [] E.op = "ecold" -> Map2(Times, Column(Aa, E.n + 1), Dx)
    [] E.op = "max" -> Map2(Max2, Dx, Dy)
    [] E.op = "maxa" -> Map2(Max2, D[R], Dx)
    [] E.op = "dadd" -> Map2(Plus, D[R], Dx)
    [] E.op = "dsub" -> Map2(Minus, D[R], Dx)
    [] OTHER -> [i \in DOMAIN D[R] |-> E.n * D[R][i]]
MatOps == {"kset", "kcanon", "ktrans", "zk", "ka", "aread", "aset", "aio", "za"}
ZeroMat(X) == [n |-> X.n, c |-> [j \in DOMAIN X.c |-> Nil(X.n)]]
MatOp ==
  CASE E.op \in {"kset", "aread", "aset"} -> MatFrom(E.x, E.y, Triples)
    [] E.op = "kcanon" -> K[R]
    [] E.op = "ktrans" -> Flip(K[R])
    [] E.op = "zk" -> ZeroMat(K[R])
    [] E.op = "ka" -> K[E.x + 1]
    [] E.op = "aio" -> Aa
    [] OTHER -> ZeroMat(A[R])
B01(b) == IF b THEN 1 ELSE 0
\* the values a question may be answered with
Answers ==
  CASE E.op = "n1c" -> {Total([i \in DOMAIN Cx.v |-> Abs(Cx.v[i])])}
    [] E.op = "nic" -> {Top(Cx.v)}
    [] E.op = "nid" -> {Top(Dx)}
    [] E.op = "sc" -> {Total(Cx.v)}
    [] E.op = "sd" -> {Total(Dx)}
    [] E.op = "idc" -> {Inner(Dx, Cy.v)}
    [] E.op = "icc" -> {Inner(Cx.v, Cy.v)}
    [] E.op = "icol" -> {Inner(Column(Aa, E.n + 1), Cx.v)}
    [] E.op = "domd" -> {B01(Dominates(Dx, Dy, E.n))}
    [] E.op = "domc" -> {B01(Dominates(Cx.v, Cy.v, E.n))}
    [] E.op = "getc" -> {Cx.v[E.n + 1]}
    [] E.op = "geta" -> {Aa.c[E.y + 1][E.x + 1]}
    [] E.op = "getk" -> {K[R].c[E.y + 1][E.x + 1]}
    [] E.op = "dmat" -> {IF E.n = 1 THEN 0 ELSE MatFrom(E.x, E.y, Triples).c[E.a + 1][E.r + 1]}
    [] E.op = "fill" -> {Cardinality(NonZeros(Column(Aa, E.n + 1)))}
    \* (stored zeros may or may not count)
    [] E.op = "msub" -> {B01(NonZeros(Cx.v) \subseteq Cy.s), B01(Cx.s \subseteq Cy.s)}
    [] OTHER -> {B01(Dominates(Cx.v, Cy.v, E.n) /\ A0 \subseteq C[R].s) : A0 \in {C[E.a + 1].s, NonZeros(C[E.a + 1].v)}}
\* what is stored is in order, within range and each place once
Ordered(q, n) == \A k \in DOMAIN q : q[k][1] \in 0..n - 1 /\ (k > 1 => q[k - 1][1] < q[k][1])
OrderedM(q, n, m) == \A k \in DOMAIN q : q[k][1] \in 0..n - 1 /\ q[k][2] \in 0..m - 1 /\
                       (k > 1 => q[k - 1][2] < q[k][2] \/ (q[k - 1][2] = q[k][2] /\ q[k - 1][1] < q[k][1]))
Sparsely ==
  /\ E.op \in SparseOps
  /\ \E w \in {SparseOp} : \E S \in {At1(E.cells)} :
       /\ C' = [C EXCEPT ![R] = [v |-> w.v, s |-> NonZeros(w.v) \cup (S \cap w.s)]]
       /\ viol' = viol \cup Tag(
            Ob("a vector has another size", E.size = <<Len(w.v)>>) \cup
            Ob("a vector is out of order", Ordered(E.cells, Len(w.v))) \cup
            Ob("a vector has other values", E.exact = 1 /\ FromList(Len(w.v), E.cells) = w.v) \cup
            Ob("a vector stores places it need not", S \subseteq w.s))
  /\ UNCHANGED <<D, K, A>>
Densely ==
  /\ E.op \in DenseOps
  /\ \E w \in {DenseOp} :
       /\ D' = [D EXCEPT ![R] = w]
       /\ viol' = viol \cup Tag(Ob("a dense vector is wrong", E.exact = 1 /\ E.size = <<Len(w)>> /\ E.cells = [i \in DOMAIN w |-> <<i - 1, w[i]>>]))
  /\ UNCHANGED <<C, K, A>>
Matrix ==
  /\ E.op \in MatOps
  /\ \E w \in {MatOp} :
       /\ IF E.op \in {"kset", "kcanon", "ktrans", "zk"} THEN K' = [K EXCEPT ![R] = w] /\ UNCHANGED A ELSE A' = [A EXCEPT ![R] = w] /\ UNCHANGED K
       /\ viol' = viol \cup Tag(IF E.op = "kset" THEN {} ELSE
            Ob("a matrix has another size", E.size = <<w.n, Len(w.c)>>) \cup
            Ob("a matrix is out of order", OrderedM(E.cells, w.n, Len(w.c))) \cup
            Ob("a matrix has other values", E.exact = 1 /\ MatFrom(w.n, Len(w.c), E.cells) = w) \cup
            Ob("a compressed matrix stores zeros", E.op \in {"ka", "aread", "aset", "aio"} => \A k \in DOMAIN E.cells : E.cells[k][3] # 0))
  /\ UNCHANGED <<C, D>>
Answer ==
  /\ E.op \notin SparseOps \cup DenseOps \cup MatOps
  /\ viol' = viol \cup Tag(Ob("a question has another answer", E.exact = 1 /\ E.num \in Answers))
  /\ UNCHANGED <<C, D, K, A>>
Operate == E.e = "Op" /\ l' = l + 1 /\ UNCHANGED pl /\ (Sparsely \/ Densely \/ Matrix \/ Answer)
Fail == E.e = "Crash" /\ l' = l + 1 /\ viol' = viol \cup Tag(Ob("an operation failed or left its memory", FALSE)) /\ UNCHANGED <<pl, C, D, K, A>>
Next == l <= N /\ (Problem \/ Operate \/ Fail)
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
Complete == TLCGet("stats").diameter = N + 1
Alias == [l |-> l, viol |-> viol]
=============================================================================
