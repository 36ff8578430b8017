------------------------------- MODULE Nuclear -------------------------------
(***************************************************************************)
(* C08.  Nuclear potentials.  Charge za sits at the focus Z = -a (where     *)
(* cos A = -1), zb at Z = +a.  Potentials are written with Cartesian        *)
(* distances; the identity with the spheroidal distances a (cosh X +- cos A)*)
(* and the mirror and superposition laws are checked on exact rational      *)
(* values of cosh X and cos A.                                              *)
(***************************************************************************)
EXTENDS Rat, Expr, Json

CONSTANT Charges, Pols, SampleCh, SampleCo

VARIABLES za, zb, pol, sym, kind     \* kind: "ks" or "partition"
vars == <<za, zb, pol, sym, kind>>

Init == za \in Charges /\ zb \in Charges /\ pol \in Pols /\ sym \in BOOLEAN
        /\ kind \in {"ks", "partition"}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* exact half: distances squared and potentials for a = 1 *)
Y2(ch, co) == QMul(QSub(QMul(ch, ch), One), QSub(One, QMul(co, co)))
Zz(ch, co) == QMul(ch, co)
RA(ch, co) == QAdd(ch, co)
RB(ch, co) == QSub(ch, co)
Pot(z1, z2, ch, co) == QNeg(QAdd(QDiv(z1, RA(ch, co)), QDiv(z2, RB(ch, co))))
SymPot(z1, z2, ch, co) == QMul(QF(1, 2), QAdd(Pot(z1, z2, ch, co), Pot(z1, z2, ch, QNeg(co))))
Laws == \A ch \in SampleCh : \A co \in SampleCo :
  /\ QMul(RA(ch, co), RA(ch, co)) =
       QAdd(Y2(ch, co), QMul(QAdd(Zz(ch, co), One), QAdd(Zz(ch, co), One)))
  /\ QMul(RB(ch, co), RB(ch, co)) =
       QAdd(Y2(ch, co), QMul(QSub(Zz(ch, co), One), QSub(Zz(ch, co), One)))
  /\ Pot(za, zb, ch, QNeg(co)) = Pot(zb, za, ch, co)                  \* mirror
  /\ Pot(za, zb, ch, co) = QAdd(Pot(za, Zero, ch, co), Pot(Zero, zb, ch, co))
  /\ SymPot(za, zb, ch, co) = SymPot(zb, za, ch, co)

(* symbolic half *)
A == V("A")   X == V("X")   a == V("a")
Yc == Mul3(a, Sinh(X), Sin(A))
Zc == Mul3(a, Cosh(X), Cos(A))
DistA == Sqrt(Add(Sq(Yc), Sq(Add(Zc, a))))
DistB == Sqrt(Add(Sq(Yc), Sq(Sub(Zc, a))))
E(q) == R(q[1], q[2])
VA(z1, z2) == Neg(Add(Div(E(z1), DistA), Div(E(z2), DistB)))
VSym(z1, z2) == Mul(R(1, 2), Add(VA(z1, z2), VA(z2, z1)))
VFor(z1, z2) == IF sym THEN VSym(z1, z2) ELSE VA(z1, z2)

Emit ==
  PrintT("@@" \o ToJson(
    [za |-> za, zb |-> zb, pol |-> pol, sym |-> sym, kind |-> kind,
     bare |-> VA(za, zb), swapped |-> VA(zb, za), ks |-> VFor(za, zb),
     frag_a |-> VFor(za, Zero), frag_b |-> VFor(Zero, zb),
     va |-> VA(za, Zero), vb |-> VA(Zero, zb), total |-> VA(za, zb)]))
=============================================================================
