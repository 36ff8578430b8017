------------------------------- MODULE Hartree -------------------------------
(***************************************************************************)
(* C07.  The Hartree potential.                                             *)
(*                                                                          *)
(* Unknown v on the grid, samples bv in the h layers beyond the outer       *)
(* radius:      Lap v + BLap bv = -4 pi Vol n ,                             *)
(* bv = sum_{k=0..MaxPole} Q_k P_k(cos) / rho^(k+1),                        *)
(* Q_k = integral of rho^k P_k(cos) n, rho the distance from the bond       *)
(* centre and cos = Z / rho.  n is the density summed over spins.           *)
(***************************************************************************)
EXTENDS Operators

MaxPole == 7

(* Legendre polynomials: (k+1) P_{k+1} = (2k+1) x P_k - k P_{k-1} *)
PAdd(p, q) == TLCEval([i \in 1..Max2(Len(p), Len(q)) |->
  QAdd(IF i <= Len(p) THEN p[i] ELSE Zero, IF i <= Len(q) THEN q[i] ELSE Zero)])
PX(p) == TLCEval(<<Zero>> \o p)
RECURSIVE Legendre(_)
Legendre(k) ==
  IF k = 0 THEN <<One>> ELSE IF k = 1 THEN <<Zero, One>>
  ELSE TLCEval(PAdd(PScale(QF(2 * k - 1, k), PX(Legendre(k - 1))),
                    PScale(QF(-(k - 1), k), Legendre(k - 2))))
LegendreTable == TLCEval([k \in 0..MaxPole |-> Legendre(k)])

RECURSIVE PConv(_, _, _)
PConv(p, q, d) ==   \* coefficient of x^d in p q
  QSum([i \in 1..(d + 1) |-> IF i <= Len(p) /\ d + 2 - i <= Len(q)
                             THEN QMul(p[i], q[d + 2 - i]) ELSE Zero])
(* integral over -1..1 of p q *)
Inner(p, q) == QSum([d \in 1..(Len(p) + Len(q) - 1) |->
  IF (d - 1) % 2 = 0 THEN QMul(PConv(p, q, d - 1), QF(2, d)) ELSE Zero])
LegendreLaws ==
  /\ \A k \in 0..MaxPole :
       /\ QSum(LegendreTable[k]) = One                       \* P_k(1) = 1
       /\ \A i \in 1..(k + 1) : (i - 1 + k) % 2 = 1 => LegendreTable[k][i] = Zero
  /\ \A j, k \in 0..4 :
       Inner(LegendreTable[j], LegendreTable[k]) = IF j = k THEN QF(2, 2 * k + 1) ELSE Zero

Zc == Mul3(a, Cosh(X), Cos(A))
Rho == Sqrt(Add(Sq(Zc), Sq(H3)))
CosT == Div(Zc, Rho)
PolyE(p, x) == SumE([i \in 1..Len(p) |-> Mul(R(p[i][1], p[i][2]), PowE(x, i - 1))])
Moment(k) == Mul(PowE(Rho, k), PolyE(LegendreTable[k], CosT))
Tail_(k)  == Div(PolyE(LegendreTable[k], CosT), PowE(Rho, k + 1))
Source(n) == Mul(R(-4, 1), Mul3(Pi, Vol, n))

EmitHartree == (na >= 2 /\ nr >= 2) =>
  PrintT("@@" \o ToJson([h |-> h, na |-> na, nr |-> nr, ops |-> [elap |-> Lap("e"), blap |-> BLap],
    moments |-> [k \in 1..(MaxPole + 1) |-> Moment(k - 1)],
    tails |-> [k \in 1..(MaxPole + 1) |-> Tail_(k - 1)],
    source |-> Source(V("n")),
    mats |-> [ea1 |-> Mat(1, na, TRUE, 1),  ea2 |-> Mat(2, na, TRUE, 1),
              er1 |-> Mat(1, nr, FALSE, 1), er2 |-> Mat(2, nr, FALSE, 1),
              bc1 |-> BC(1), bc2 |-> BC(2)]]))
=============================================================================
