------------------------------ MODULE Embedding ------------------------------
(***************************************************************************)
(* C31.  What a partition is for: with exact non-additive terms (kinetic    *)
(* part by inversion, exact Hartree-exchange-correlation part) the          *)
(* fragments, at convergence, add up to the Kohn-Sham calculation of the    *)
(* whole molecule.                                                          *)
(*                                                                          *)
(* First half: why.  A model with two sites, densities, potentials and      *)
(* weights in rationals; fragment members with arbitrary densities, an      *)
(* arbitrary present partition potential vp and an arbitrary inverted       *)
(* potential vs of the promolecule.  One update of vp as the code defines   *)
(* it changes vp by exactly v + vhxc[nf] - vs and a constant, so a fixed    *)
(* point has the Kohn-Sham potential of the molecule; and the energies of   *)
(* fragments and partition add up to the molecule's whatever the densities. *)
(*                                                                          *)
(* Second half: systems.  A partition and the molecule it must reproduce,   *)
(* which is derived here, and the table of equalities.                      *)
(***************************************************************************)
EXTENDS Rat, Json

CONSTANTS Wanted, Dens, Pots, Mix

VARIABLES ph, x
vars == <<ph, x>>

(* ------------------------------------------------------------ lattice *)
Sites == 1..2
Kmat(n) == <<QAdd(QMul(Q(2), n[1]), n[2]), QAdd(n[1], QMul(Q(2), n[2]))>>
Vadd(a, b) == [i \in Sites |-> QAdd(a[i], b[i])]
Vsub(a, b) == [i \in Sites |-> QSub(a[i], b[i])]
Vsc(c, a) == [i \in Sites |-> QMul(c, a[i])]
Vmul(a, b) == [i \in Sites |-> QMul(a[i], b[i])]
Dot(a, b) == QAdd(QMul(a[1], b[1]), QMul(a[2], b[2]))
Const(c) == [i \in Sites |-> c]
DefPots == {-1, 2}
DefMix == {QF(0, 1), QF(1, 3)}
vA == <<Q(-3), Q(-1)>>
vB == <<Q(-1), Q(-2)>>
Vec(s) == {<<Q(a), Q(b)>> : a \in s, b \in s}
(* members: densities n, weights w, own field, other field *)
Mem(y) == << [n |-> y.a1, w |-> QSub(One, y.nu), own |-> vA, oth |-> vB], [n |-> y.a2, w |-> y.nu, own |-> vA, oth |-> vB],
             [n |-> y.b1, w |-> QSub(One, y.nu), own |-> vB, oth |-> vA], [n |-> y.b2, w |-> y.nu, own |-> vB, oth |-> vA] >>
RECURSIVE Tot(_, _)
Tot(F(_), k) == IF k = 0 THEN Const(Zero) ELSE Vadd(Tot(F, k - 1), F(k))
RECURSIVE QTot(_, _)
QTot(F(_), k) == IF k = 0 THEN Zero ELSE QAdd(QTot(F, k - 1), F(k))
Nf(y) == Tot(LAMBDA k : Vsc(Mem(y)[k].w, Mem(y)[k].n), 4)
Qf(y, k) == [i \in Sites |-> QDiv(QMul(Mem(y)[k].w, Mem(y)[k].n[i]), Nf(y)[i])]
Veff(y, k) == Vadd(Vadd(Mem(y)[k].own, Kmat(Mem(y)[k].n)), y.vp)
VpKin(y, k) == Vsub(Vsub(Const(y.um), y.vs), Vsub(Const(y.u), Veff(y, k)))
VpHxc(y, k) == Vsub(Kmat(Nf(y)), Kmat(Mem(y)[k].n))
VpOf(y, k) == Vadd(Vadd(Mem(y)[k].oth, VpKin(y, k)), VpHxc(y, k))
VpNew(y) == Tot(LAMBDA k : Vmul(Qf(y, k), VpOf(y, k)), 4)
VMol(y) == Vadd(Vadd(vA, vB), Kmat(Nf(y)))
Update == ph = "lattice" =>
  Vsub(VpNew(x), x.vp) = Vadd(Vsub(VMol(x), x.vs), Const(QSub(x.um, x.u)))
FixedPoint == ph = "lattice" =>
  ((\E c \in {QSub(x.um, x.u)} : Vsub(VpNew(x), x.vp) = Const(Zero) <=> Vsub(x.vs, VMol(x)) = Const(c)))
(* energies: kinetic energies of members and of the promolecule are arbitrary numbers *)
Eh(n) == QMul(QF(1, 2), Dot(n, Kmat(n)))
Ts(k) == Q(3 * k - 4)
Tm == QF(7, 3)
Ef(y) == QTot(LAMBDA k : QMul(Mem(y)[k].w, QAdd(Ts(k), QAdd(Dot(Mem(y)[k].n, Mem(y)[k].own), Eh(Mem(y)[k].n)))), 4)
EpPot(y) == QTot(LAMBDA k : QMul(Mem(y)[k].w, Dot(Mem(y)[k].n, Mem(y)[k].oth)), 4)
EpKin(y) == QSub(Tm, QTot(LAMBDA k : QMul(Mem(y)[k].w, Ts(k)), 4))
EpHxc(y) == QSub(Eh(Nf(y)), QTot(LAMBDA k : QMul(Mem(y)[k].w, Eh(Mem(y)[k].n)), 4))
Energies == ph = "lattice" =>
  QAdd(Ef(x), QAdd(EpPot(x), QAdd(EpKin(x), EpHxc(x))))
  = QAdd(Tm, QAdd(Dot(Nf(x), Vadd(vA, vB)), Eh(Nf(x))))

(* ------------------------------------------------------------ systems *)
M(nmo, n) == [nmo |-> nmo, n |-> n]
Sys(za, zb, a, pol, A, nua, B, nub) ==
  [za |-> za, zb |-> zb, a |-> a, pol |-> pol, A |-> A, nua |-> nua, B |-> B, nub |-> nub, frac |-> FALSE, ens |-> FALSE,
   ab |-> FALSE, gga |-> FALSE, method |-> "wuyang", alpha |-> QF(1, 2), box |-> 12]
He == M(<<<<1>>>>, <<<<Q(2)>>>>)
HeP == M(<<<<1, 1>>>>, <<<<Q(1), Q(1)>>>>)
Hs == M(<<<<1, 0>>>>, <<<<Q(1), Q(0)>>>>)
Hd == M(<<<<0, 1>>>>, <<<<Q(0), Q(1)>>>>)
HF(n) == M(<<<<1>>>>, <<<<n>>>>)
Be == M(<<<<2>>>>, <<<<Q(4)>>>>)
Li == M(<<<<2, 1>>>>, <<<<Q(2), Q(1)>>>>)
LiF == M(<<<<2>>>>, <<<<Q(3)>>>>)
Pi == M(<<<<1>>, <<1>>>>, <<<<Q(1)>>, <<Q(1)>>>>)
System(s) ==
  CASE s = "H2 spins mirrored"     -> [Sys(1, 1, QF(733, 1000), 2, <<Hs>>, One, <<Hs>>, One) EXCEPT !.ens = TRUE, !.ab = TRUE, !.method = "orbitalinvert"]
    [] s = "H2 stretched"          -> [Sys(1, 1, One, 2, <<Hs>>, One, <<Hs>>, One) EXCEPT !.ens = TRUE, !.ab = TRUE, !.method = "orbitalinvert"]
    [] s = "H2 spins"              -> [Sys(1, 1, QF(733, 1000), 2, <<Hs>>, One, <<Hs>>, One) EXCEPT !.ens = TRUE, !.method = "orbitalinvert"]
    [] s = "H2 spins wuyang"       -> [Sys(1, 1, QF(733, 1000), 2, <<Hs>>, One, <<Hs>>, One) EXCEPT !.ens = TRUE]
    [] s = "H2 both wuyang"        -> [Sys(1, 1, QF(733, 1000), 2, <<Hs>>, One, <<Hs>>, One) EXCEPT !.ens = TRUE, !.ab = TRUE]
    [] s = "H2 antiferro"          -> Sys(1, 1, QF(733, 1000), 2, <<Hs>>, One, <<Hd>>, One)
    [] s = "H2 half filled"        -> [Sys(1, 1, QF(7, 10), 1, <<HF(Q(1))>>, One, <<HF(Q(1))>>, One) EXCEPT !.frac = TRUE]
    [] s = "H2 half filled mirror" -> [Sys(1, 1, QF(7, 10), 1, <<HF(Q(1))>>, One, <<HF(Q(1))>>, One) EXCEPT !.frac = TRUE, !.ab = TRUE, !.alpha = QF(4, 5)]
    [] s = "H2 unequal"            -> [Sys(1, 1, QF(733, 1000), 1, <<HF(QF(6, 5))>>, One, <<HF(QF(4, 5))>>, One) EXCEPT !.frac = TRUE]
    [] s = "He2 unequal"           -> [Sys(2, 2, QF(3, 2), 1, <<HF(QF(19, 10))>>, One, <<HF(Q(2))>>, One) EXCEPT !.frac = TRUE]
    [] s = "H2 ensemble"           -> [Sys(1, 1, QF(733, 1000), 1, <<HF(QF(9, 10)), HF(QF(11, 10))>>, QF(1, 2), <<HF(QF(11, 10)), HF(QF(9, 10))>>, QF(1, 2))
                                       EXCEPT !.frac = TRUE]
    [] s = "H2 three quarters"     -> [Sys(1, 1, QF(733, 1000), 1, <<HF(QF(21, 20)), HF(QF(19, 20))>>, QF(3, 4), <<HF(QF(19, 20)), HF(QF(21, 20))>>, QF(1, 4))
                                       EXCEPT !.frac = TRUE]
    [] s = "He2 ensemble"          -> [Sys(2, 2, QF(3, 2), 1, <<HF(QF(19, 10)), He>>, QF(1, 2), <<HF(QF(19, 10)), He>>, QF(1, 2)) EXCEPT !.frac = TRUE, !.ab = TRUE]
    [] s = "He2"                   -> Sys(2, 2, QF(3, 2), 1, <<He>>, One, <<He>>, One)
    [] s = "He2 far"               -> [Sys(2, 2, Q(2), 1, <<He>>, One, <<He>>, One) EXCEPT !.ab = TRUE]
    [] s = "He2 near"              -> [Sys(2, 2, QF(5, 4), 1, <<He>>, One, <<He>>, One) EXCEPT !.ab = TRUE]
    [] s = "He2 polarized"         -> [Sys(2, 2, QF(3, 2), 2, <<HeP>>, One, <<HeP>>, One) EXCEPT !.ab = TRUE]
    [] s = "He2 gga"               -> [Sys(2, 2, QF(3, 2), 1, <<He>>, One, <<He>>, One) EXCEPT !.ab = TRUE, !.gga = TRUE]
    [] s = "He2 pi"                -> [Sys(2, 2, QF(3, 2), 1, <<Pi>>, One, <<Pi>>, One) EXCEPT !.ab = TRUE, !.frac = TRUE, !.alpha = QF(3, 10)]
    [] s = "LiH"                   -> [Sys(3, 1, QF(603, 400), 2, <<Li>>, One, <<Hd>>, One) EXCEPT !.alpha = QF(3, 10)]
    [] s = "LiH half filled"       -> [Sys(3, 1, QF(3, 2), 1, <<LiF>>, One, <<HF(Q(1))>>, One) EXCEPT !.frac = TRUE, !.alpha = QF(3, 10)]
    [] s = "Be2"                   -> [Sys(4, 4, QF(113, 50), 1, <<Be>>, One, <<Be>>, One) EXCEPT !.ab = TRUE, !.alpha = QF(3, 10), !.box = 15]

W(y, nu, k) == IF Len(y.A) = 1 THEN One ELSE IF k = 1 THEN QSub(One, nu) ELSE nu
Rows(y) == Len(y.A[1].n)
(* electrons of row i, spin j in the molecule *)
Side(y, ms, nu, i, j) == QSum([k \in 1..Len(ms) |-> QMul(W(y, nu, k), ms[k].n[i][j])])
Sum0(y, i, j) == QAdd(Side(y, y.A, y.nua, i, j), Side(y, y.B, y.nub, i, j))
NMol(y) == [i \in 1..Rows(y) |-> [j \in 1..y.pol |->
             IF y.ens THEN QMul(QF(1, 2), QAdd(Sum0(y, i, 1), Sum0(y, i, 2))) ELSE Sum0(y, i, j)]]
Cap(y, i) == (IF y.pol = 1 THEN 2 ELSE 1) * (IF i = 1 THEN 1 ELSE 2)
Ceil(q, c) == LET d == QDiv(q, Q(c)) IN (d[1] + d[2] - 1) \div d[2]
MolOf(y) == [n |-> NMol(y), nmo |-> [i \in 1..Rows(y) |-> [j \in 1..y.pol |-> Ceil(NMol(y)[i][j], Cap(y, i))]]]
Electrons(y) == QSum([i \in 1..Rows(y) |-> QSum([j \in 1..y.pol |-> Sum0(y, i, j)])])
(* equalities at convergence: molecule's name, the partition's terms *)
Table == << <<"n", <<"nf">>, "density">>, <<"E.E", <<"E.E">>, "energy">>, <<"E.Et", <<"E.Et">>, "energy">>,
            <<"E.Et", <<"E.Ef", "E.Ep">>, "energy">>, <<"E.Vnn", <<"E.Vnn">>, "energy">>,
            <<"E.Ts", <<"E.Tsf", "E.Ep_kin">>, "component">>, <<"E.Enuc", <<"E.Enucf", "E.Ep_pot">>, "component">>,
            <<"E.Eh", <<"E.Ehf", "E.Ep_h">>, "component">>, <<"E.Ex", <<"E.Exf", "E.Ep_x">>, "component">>,
            <<"E.Ec", <<"E.Ecf", "E.Ep_c">>, "component">>, <<"veff", <<"inverter.vs">>, "potential">> >>
Conserved == ph = "system" =>
  LET y == System(x) m == MolOf(y) IN
  /\ QSum([i \in 1..Rows(y) |-> QSum([j \in 1..y.pol |-> m.n[i][j]])]) = Electrons(y)
  /\ \A i \in 1..Rows(y) : \A j \in 1..y.pol :
       /\ QLeq(m.n[i][j], Q(Cap(y, i) * m.nmo[i][j]))
       /\ y.frac \/ QMul(Q(Cap(y, i)), Q(m.nmo[i][j])) = m.n[i][j]      \* else closed
  /\ y.ab => y.za = y.zb /\ y.A = y.B /\ y.nua = y.nub

Init == \/ ph = "system" /\ x \in Wanted
        \/ ph = "lattice" /\ x \in [a1 : Vec(Dens), a2 : {<<Q(1), Q(2)>>}, b1 : Vec(Dens), b2 : {<<Q(3), Q(1)>>},
                                    nu : Mix, vp : Vec(Pots), vs : Vec(Pots), u : {Q(-1)}, um : {Q(-1), QF(1, 2)}]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == ph = "system" => PrintT("@@" \o ToJson([name |-> x, sys |-> System(x), mol |-> MolOf(System(x)), table |-> Table]))
=============================================================================
