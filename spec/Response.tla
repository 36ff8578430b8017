------------------------------ MODULE Response ------------------------------
(***************************************************************************)
(* C12.  Linear density response of one orbital solver, built level by      *)
(* level.                                                                   *)
(*                                                                          *)
(* Levels and the Hamiltonian are those of SolverStep: mirror pairs of      *)
(* points with a 2x2 block each.  A level <<b, s>> has unit direction y and *)
(* energy e; the first-order change of its density at point i under a       *)
(* potential at point k of the same pair is                                 *)
(*     2 y_i z_i y_k z_k / (e - e')                                         *)
(* where <<z, e'>> is the other level of the pair (divided by the           *)
(* integration weight of the points, which the model leaves out).  The      *)
(* response is the sum over levels weighted with their occupation; levels   *)
(* are filled by the rule of Occupation.                                    *)
(***************************************************************************)
EXTENDS Rat, Json

CONSTANTS Base, Coup, Vs, MSet, NmoMax

VARIABLES v, pol, m, frac, n4, nmo, k, chi, left
vars == <<v, pol, m, frac, n4, nmo, k, chi, left>>

Pairs == 1..Len(Base)
ISqrt(x) == CHOOSE r \in 0..200 : r * r = x
Square(x) == \E r \in 0..200 : r * r = x
H(vv, b) == [a |-> Base[b] + vv[b][1], c |-> Base[b] + vv[b][2], q |-> Coup[b]]
Disc(vv, b) == LET h == H(vv, b) IN (h.a - h.c) * (h.a - h.c) + 4 * h.q * h.q
Eig(vv, b, s) ==
  LET h == H(vv, b)  d == ISqrt(Disc(vv, b))
      e == QF(h.a + h.c + s * d, 2)
  IN  [b |-> b, s |-> s, e |-> e, y |-> << Q(h.q), QSub(e, Q(h.a)) >>]
Spectrum(vv) == {Eig(vv, b, s) : b \in Pairs, s \in {-1, 1}}
Distinct(vv) == \A x, y \in Spectrum(vv) : x # y => x.e # y.e
RECURSIVE Lowest(_, _)
Lowest(S, n) == IF n = 0 THEN <<>>
  ELSE LET x == CHOOSE x \in S : \A y \in S : QLeq(x.e, y.e)
       IN  <<x>> \o Lowest(S \ {x}, n - 1)
Usable(vv) == (\A b \in Pairs : Square(Disc(vv, b))) /\ Distinct(vv)
GoodVs == TLCEval({vv \in Vs : Usable(vv)})
Levels == Lowest(Spectrum(v), nmo)

Cap4 == 4 * (IF pol = 1 THEN 2 ELSE 1) * (IF m = 0 THEN 1 ELSE 2)
Norm2(y) == QAdd(QMul(y[1], y[1]), QMul(y[2], y[2]))
(* response of one level with unit occupation: a 2x2 matrix on its pair *)
Resp(o) ==
  LET z == Eig(v, o.b, -o.s)
      den == QMul(QMul(Norm2(o.y), Norm2(z.y)), QSub(o.e, z.e))
  IN  [i \in 1..2 |-> [j \in 1..2 |->
        QDiv(QMul(Q(2), QMul(QMul(o.y[i], z.y[i]), QMul(o.y[j], z.y[j]))), den)]]
ZeroChi == [b \in Pairs |-> [i \in 1..2 |-> [j \in 1..2 |-> Zero]]]

Init == /\ v \in GoodVs /\ pol \in {1, 2} /\ m \in MSet /\ frac \in BOOLEAN
        /\ nmo \in 1..NmoMax
        /\ n4 \in 0..(Cap4 * nmo)
        /\ (frac \/ n4 % Cap4 = 0)
        /\ k = 0 /\ chi = ZeroChi /\ left = n4
Level == /\ k < nmo
         /\ LET o == Levels[k + 1]
                occ == QF(Min2(left, Cap4), 4)
                r == Resp(o)
            IN  /\ chi' = TLCEval([chi EXCEPT ![o.b] = [i \in 1..2 |-> [j \in 1..2 |->
                              QAdd(@[i][j], QMul(occ, r[i][j]))]]])
                /\ left' = left - Min2(left, Cap4)
         /\ k' = k + 1
         /\ UNCHANGED <<v, pol, m, frac, n4, nmo>>
Next == Level
Spec == Init /\ [][Next]_vars

Symmetric == \A b \in Pairs : chi[b][1][2] = chi[b][2][1]
(* charge is conserved, and a constant shift of the potential does nothing *)
Neutral == \A b \in Pairs : \A i \in 1..2 :
  /\ QAdd(chi[b][i][1], chi[b][i][2]) = Zero
  /\ QAdd(chi[b][1][i], chi[b][2][i]) = Zero
(* raising the potential of a point never attracts density to it, as long   *)
(* as levels fill from below                                                *)
Repels == \A b \in Pairs : QLeq(chi[b][1][1], Zero)
(* two equally filled levels of a pair make an inert density *)
Inert == \A b \in Pairs :
  (/\ \E i, j \in 1..k : i # j /\ Levels[i].b = b /\ Levels[j].b = b
                          /\ Min2(Max2(n4 - (i - 1) * Cap4, 0), Cap4)
                             = Min2(Max2(n4 - (j - 1) * Cap4, 0), Cap4))
  => \A i, j \in 1..2 : chi[b][i][j] = Zero

Emit == k = nmo => PrintT("@@" \o ToJson(
  [v |-> v, pol |-> pol, m |-> m, frac |-> frac, n4 |-> n4, nmo |-> nmo, chi |-> chi,
   base |-> Base, coup |-> Coup]))
=============================================================================
