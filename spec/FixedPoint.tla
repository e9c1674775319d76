----------------------------- MODULE FixedPoint -----------------------------
(* Fixed-point arithmetic used by all zmdp specifications.                     *)
(* Values (rewards, bounds) are integers in units of 1e-6, probabilities and   *)
(* beliefs in units of 1e-9.  The definitions below are the meaning; TLC       *)
(* evaluates the products through FixedPoint.java because its own integers     *)
(* have 32 bits.                                                               *)
EXTENDS Integers, Sequences

VS == 1000000
PS == 1000000000

RECURSIVE SumUpTo(_, _)
SumUpTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumUpTo(f, n - 1)

\* round(x*y/s)
Mul(x, y, s) == (x * y + s \div 2) \div s
\* round(sum_i f[i]*g[i] / s)
Dot(f, g, s) == (SumUpTo([i \in DOMAIN f |-> f[i] * g[i]], Len(f)) + s \div 2) \div s
\* element-wise product
EMul(f, g, s) == [i \in DOMAIN f |-> Mul(f[i], g[i], s)]
\* sum of a sequence of integers
SumSeq(f) == SumUpTo(f, Len(f))

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x >= y THEN x ELSE y
Min2(x, y) == IF x <= y THEN x ELSE y
MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE MaxSeqFrom(_, _)
MaxSeqFrom(q, i) == IF i = Len(q) THEN q[i] ELSE Max2(q[i], MaxSeqFrom(q, i + 1))
MaxSeq(q) == MaxSeqFrom(q, 1)
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
RECURSIVE GcdSeq(_, _)
GcdSeq(q, i) == IF i = 0 THEN 0 ELSE Gcd(q[i], GcdSeq(q, i - 1))
=============================================================================
