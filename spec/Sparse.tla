--------------------------------- MODULE Sparse ---------------------------------
(* Vectors and matrices as the planner computes with them, as a machine with     *)
(* registers: every operation means what it means on ordinary vectors and        *)
(* matrices, whatever is stored.  A sparse vector is [v, s]: its values and the  *)
(* set of places for which a value is stored (1..size); all other values are 0.  *)
(* A vector's stored places also serve as a mask.                                *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x >= y THEN x ELSE y
RECURSIVE SumOver(_, _)
SumOver(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumOver(f, i - 1)
Total(f) == SumOver(f, Len(f))
RECURSIVE TopOver(_, _)
TopOver(f, i) == IF i = 0 THEN 0 ELSE Max2(Abs(f[i]), TopOver(f, i - 1))
Top(f) == TopOver(f, Len(f))
NonZeros(v) == {i \in DOMAIN v : v[i] # 0}
Exact(v) == [v |-> v, s |-> NonZeros(v)]           \* nothing superfluous stored
Map2(f(_, _), v, w) == [i \in DOMAIN v |-> f(v[i], w[i])]
Plus(x, y) == x + y
Minus(x, y) == x - y
Times(x, y) == x * y
\* matrices are sequences of columns, with the number of rows apart: [n, c]
Rows(A) == A.n
Cols(A) == Len(A.c)
Column(A, j) == A.c[j]
Row(A, i) == [j \in DOMAIN A.c |-> A.c[j][i]]
Inner(v, w) == Total(Map2(Times, v, w))
MatVec(A, v) == [i \in 1..Rows(A) |-> Inner(Row(A, i), v)]
VecMat(v, A) == [j \in 1..Cols(A) |-> Inner(v, Column(A, j))]
\* from places and values listed in any order, where the last one counts
LastAt(q, P(_)) == LET H == {k \in DOMAIN q : P(q[k])} IN IF H = {} THEN 0 ELSE LET k == CHOOSE k \in H : \A j \in H : j <= k IN q[k][Len(q[k])]
FromList(n, q) == [i \in 1..n |-> LET At(e) == e[1] = i - 1 IN LastAt(q, At)]
MatFrom(n, m, q) == [n |-> n, c |-> [j \in 1..m |-> [i \in 1..n |-> LET At(e) == e[1] = i - 1 /\ e[2] = j - 1 IN LastAt(q, At)]]]
Flip(A) == [n |-> Cols(A), c |-> [i \in 1..Rows(A) |-> Row(A, i)]]
\* is every v(i) >= w(i) - h/2 ?
Dominates(v, w, h) == \A i \in DOMAIN v : 2 * v[i] >= 2 * w[i] - h
Keep(v, S) == [i \in DOMAIN v |-> IF i \in S THEN v[i] ELSE 0]
=============================================================================
