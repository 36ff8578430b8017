-------------------------------- MODULE Rat --------------------------------
(* TLCEval (identity) stops TLC from re-evaluating lazily built functions. *)
(* Exact rational arithmetic on pairs <<num, den>>, den > 0, in lowest terms. *)
EXTENDS Integers, Sequences, TLC

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Abs(x) == IF x < 0 THEN -x ELSE x

Norm(n, d) ==
  IF n = 0 THEN <<0, 1>>
  ELSE LET g == Gcd(Abs(n), Abs(d))
           s == IF d < 0 THEN -1 ELSE 1
       IN  <<s * (n \div g), s * (d \div g)>>

Q(n)      == <<n, 1>>
QF(n, d)  == Norm(n, d)
Zero      == <<0, 1>>
One       == <<1, 1>>
QNeg(a)   == <<-a[1], a[2]>>
(* Cross-reduce before multiplying, to stay inside TLC's 32-bit integers. *)
QMul(a, b) ==
  IF a[1] = 0 \/ b[1] = 0 THEN Zero
  ELSE IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] * b[1], 1>>
  ELSE LET g == Gcd(Abs(a[1]), b[2])
           h == Gcd(Abs(b[1]), a[2])
       IN  <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
QInv(a)   == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
QDiv(a, b) == QMul(a, QInv(b))
QAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[2] = b[2] THEN (IF a[2] = 1 THEN <<a[1] + b[1], 1>> ELSE Norm(a[1] + b[1], a[2]))
  ELSE LET g == Gcd(a[2], b[2])
  IN  Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
QSub(a, b) == QAdd(a, QNeg(b))
(* Comparison without cross multiplication (Euclid on both fractions). *)
RECURSIVE QLessE(_, _)
QLessE(a, b) ==
  LET fa == a[1] \div a[2]  fb == b[1] \div b[2]     \* floors
      ra == a[1] % a[2]     rb == b[1] % b[2]
  IN  IF fa # fb THEN fa < fb
      ELSE IF rb = 0 THEN FALSE
      ELSE IF ra = 0 THEN TRUE
      ELSE QLessE(<<b[2], rb>>, <<a[2], ra>>)
QLess(a, b) == IF a[2] = b[2] THEN a[1] < b[1] ELSE QLessE(a, b)
QLeq(a, b)  == ~QLessE(b, a)
QAbs(a)   == <<Abs(a[1]), a[2]>>
QMax(a, b) == IF QLess(a, b) THEN b ELSE a

RECURSIVE QSumFrom(_, _)
QSumFrom(s, i) == IF i > Len(s) THEN Zero ELSE QAdd(s[i], QSumFrom(s, i + 1))
QSum(s) == LET t == TLCEval(s) IN QSumFrom(t, 1)
RECURSIVE QPow(_, _)
QPow(a, n) == IF n = 0 THEN One ELSE QMul(a, QPow(a, n - 1))

RECURSIVE ISumFrom(_, _)
ISumFrom(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + ISumFrom(s, i + 1)
ISum(s) == LET t == TLCEval(s) IN ISumFrom(t, 1)
RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN 1 ELSE a * IPow(a, n - 1)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* Polynomials: sequences of rational coefficients, index i = power i-1. *)
PEval(p, x) == QSum([i \in 1..Len(p) |-> QMul(p[i], QPow(x, i - 1))])
PScale(c, p) == TLCEval([i \in 1..Len(p) |-> QMul(c, p[i])])
PMulLin(p, r) ==  \* p(t) * (t - r)
  TLCEval([i \in 1..(Len(p) + 1) |->
     QSub(IF i > 1 THEN p[i - 1] ELSE Zero,
          IF i <= Len(p) THEN QMul(r, p[i]) ELSE Zero)])
RECURSIVE PFromRoots(_)
PFromRoots(rs) == IF rs = <<>> THEN <<One>> ELSE PMulLin(PFromRoots(Tail(rs)), Head(rs))
Without(s, k) == TLCEval([i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]])
(* Lagrange basis polynomial number k on the (distinct rational) nodes s. *)
Lagrange(s, k) ==
  LET p == PFromRoots(Without(s, k))
  IN  PScale(QInv(PEval(p, s[k])), p)
(* Integral of p from 0 to x. *)
PInt(p, x) == QSum([i \in 1..Len(p) |-> QMul(QMul(p[i], QF(1, i)), QPow(x, i))])
=============================================================================
