-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* C04 / C05.  The prolate-spheroidal grid.                                 *)
(*                                                                          *)
(* A grid is built from np points per block, nma angular and nmr radial     *)
(* blocks, and a stencil of width 2h+1.  Points are numbered 1..na*nr with  *)
(* the angular index running fastest.  Angle and radial coordinate of a     *)
(* point sit at cell centres; the bond axis mirror maps angular index i to  *)
(* na+1-i.  Every metric quantity is a symbolic expression of the angle A,  *)
(* the radial coordinate X and the half bond length a.                      *)
(***************************************************************************)
EXTENDS Rat, Expr, Json

CONSTANTS NPs, MaxBlocks, Halves, MaxElem

VARIABLES np, nma, nmr, h

na == (np - 1) * nma + 1
nr == (np - 1) * nmr + 1
Nelem == na * nr

Init == /\ np \in NPs /\ h \in Halves /\ nma = 1 /\ nmr = 1
Next == /\ \/ nma < MaxBlocks /\ nma' = nma + 1 /\ UNCHANGED nmr
           \/ nmr < MaxBlocks /\ nmr' = nmr + 1 /\ UNCHANGED nma
        /\ UNCHANGED <<np, h>>
Spec == Init /\ [][Next]_<<np, nma, nmr, h>>
Small == Nelem <= MaxElem            \* state constraint

Admissible == na >= h /\ nr >= h     \* the stencil fits the line

Index(i, j) == (j - 1) * na + i
AIx(k) == ((k - 1) % na) + 1
RIx(k) == ((k - 1) \div na) + 1
MirrorIx(k) == Index(na + 1 - AIx(k), RIx(k))

IndexBijective ==
  /\ \A k \in 1..Nelem : Index(AIx(k), RIx(k)) = k
  /\ {Index(i, j) : i \in 1..na, j \in 1..nr} = 1..Nelem
MirrorLaws ==
  \A k \in 1..Nelem :
    /\ MirrorIx(MirrorIx(k)) = k
    /\ RIx(MirrorIx(k)) = RIx(k)
    \* the angle of the mirror image is pi minus the angle
    /\ QAdd(QF(2 * AIx(k) - 1, 2 * na), QF(2 * AIx(MirrorIx(k)) - 1, 2 * na)) = One

(* Angles in units of pi, radial coordinates in units of the box size L. *)
Angle(k)  == QF(2 * AIx(k) - 1, 2 * na)
Radial(k) == QF(2 * RIx(k) - 1, 2 * nr)
(* Boundary points: radial layers nr+1 .. nr+h, angular index fastest. *)
BAngle(k)  == QF(2 * AIx(k) - 1, 2 * na)
BRadial(k) == QF(2 * (nr + RIx(k)) - 1, 2 * nr)

A == V("A")   X == V("X")   a == V("a")
MetricSq == Add(Sq(Sinh(X)), Sq(Sin(A)))            \* sinh^2 + sin^2
H1 == Mul(a, Sqrt(MetricSq))
H2 == H1
H3 == Mul3(a, Sinh(X), Sin(A))                      \* distance from the bond axis
Fields == [
  Z  |-> Mul3(a, Cosh(X), Cos(A)),
  Y  |-> H3,
  h1 |-> H1, h2 |-> H2, h3 |-> H3,
  w  |-> Mul3(H1, H2, H3),                          \* volume element
  f  |-> Div(R(1, 2), Sq(H3))]                      \* centrifugal potential per m^2
(* exact behaviour under the mirror: +1 symmetric, -1 antisymmetric *)
MirrorSign == [Z |-> -1, Y |-> 1, h1 |-> 1, h2 |-> 1, h3 |-> 1, w |-> 1, f |-> 1]

Emit == Admissible =>
  PrintT("@@" \o ToJson(
    [np |-> np, nma |-> nma, nmr |-> nmr, h |-> h, na |-> na, nr |-> nr,
     ang |-> [k \in 1..Nelem |-> Angle(k)],
     rad |-> [k \in 1..Nelem |-> Radial(k)],
     bang |-> [k \in 1..(na * h) |-> BAngle(k)],
     brad |-> [k \in 1..(na * h) |-> BRadial(k)],
     mirror |-> [k \in 1..Nelem |-> MirrorIx(k)],
     aix |-> [k \in 1..Nelem |-> AIx(k)], rix |-> [k \in 1..Nelem |-> RIx(k)],
     fields |-> Fields, sign |-> MirrorSign]))
=============================================================================
