-------------------------------- MODULE Expr --------------------------------
(* Symbolic real-valued expressions, emitted by the specifications as JSON    *)
(* and evaluated in floating point by the conformance harness (astev.py).     *)
EXTENDS Integers, Sequences
V(name)      == [f |-> "var", n |-> name]
R(n, d)      == [f |-> "rat", n |-> n, d |-> d]
Fn(name, as) == [f |-> name, a |-> as]
Pi           == [f |-> "pi"]
Add(x, y)    == Fn("add", <<x, y>>)
Sub(x, y)    == Fn("sub", <<x, y>>)
Mul(x, y)    == Fn("mul", <<x, y>>)
Div(x, y)    == Fn("div", <<x, y>>)
Neg(x)       == Fn("neg", <<x>>)
Sq(x)        == Mul(x, x)
Sqrt(x)      == Fn("sqrt", <<x>>)
Sin(x)       == Fn("sin", <<x>>)
Cos(x)       == Fn("cos", <<x>>)
Sinh(x)      == Fn("sinh", <<x>>)
Cosh(x)      == Fn("cosh", <<x>>)
Exp(x)       == Fn("exp", <<x>>)
Erf(x)       == Fn("erf", <<x>>)
Log2(x)      == Fn("log2", <<x>>)
Mul3(x, y, z) == Mul(x, Mul(y, z))
RECURSIVE SumE(_)
SumE(s) == IF Len(s) = 1 THEN s[1] ELSE Add(Head(s), SumE(Tail(s)))
RECURSIVE PowE(_, _)
PowE(x, k) == IF k = 0 THEN R(1, 1) ELSE IF k = 1 THEN x ELSE Mul(x, PowE(x, k - 1))
=============================================================================
