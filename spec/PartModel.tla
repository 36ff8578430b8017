------------------------------ MODULE PartModel ------------------------------
(***************************************************************************)
(* The two-fragment partition calculation on the lattice of KSModel.        *)
(* Used by PartOps (C17, C19..C22), PartMirror (C18) and PartScf (C23).     *)
(*                                                                          *)
(* A configuration p: [type, pol, sym, absym, ess, kin, hxc, za, zb, nu,    *)
(* mem, nuc]; nu: eighths of the mixing ratio per side; mem: per side the   *)
(* members [nmo, n4] (one without ensemble; else the lower, the upper);     *)
(* nuc: per side the site potentials of its nucleus.                        *)
(* Fragments are numbered a, b  or  a, A, b, B (capital: upper member).     *)
(***************************************************************************)
EXTENDS KSModel
CONSTANT KF                          \* kinetic functional <<e0, e1, a, b, c>>

Ens(p) == p.nu # <<8, 8>>
NFr(p) == IF Ens(p) THEN 4 ELSE 2
Fr(p) == 1..NFr(p)
Side(p, i) == IF i <= NFr(p) \div 2 THEN 1 ELSE 2
Member(p, i) == IF Side(p, i) = 1 THEN i ELSE i - NFr(p) \div 2
Of(p, s) == {i \in Fr(p) : Side(p, i) = s}
Leaders(p) == IF p.absym THEN Of(p, 1) ELSE Fr(p)
Source(p, i) == i - NFr(p) \div 2     \* what fragment i of side 2 mirrors

Weight(p, i) ==
  LET nu == QF(p.nu[Side(p, i)], 8)
  IN  IF ~Ens(p) THEN nu ELSE IF Member(p, i) = 1 THEN QSub(One, nu) ELSE nu
Scale(p, i) == IF p.ess THEN QMul(Half, Weight(p, i)) ELSE Weight(p, i)
Flips(p) == IF p.ess THEN Q(2) ELSE One
PF(p, s) == [k \in 1..p.pol |-> [i \in Sites |-> Q(p.nuc[s][i])]]
Nuc(p, i) == LET v == PF(p, Side(p, i)) IN IF p.sym THEN FSym(v) ELSE v
Cfg(p, i) == TLCEval([type |-> p.type, pol |-> p.pol, sym |-> p.sym,
               nmo |-> p.mem[Side(p, i)][Member(p, i)].nmo, n4 |-> p.mem[Side(p, i)][Member(p, i)].n4,
               za |-> IF Side(p, i) = 1 THEN p.za ELSE 0, zb |-> IF Side(p, i) = 2 THEN p.zb ELSE 0,
               nuc |-> Nuc(p, i)])
PVnn(p) == QDiv(QF(p.za * p.zb, 2), ABond)

RECURSIVE FSumRec(_, _, _)
FSumRec(p, S, f) == IF S = {} THEN FZero(p.pol)
                    ELSE LET i == CHOOSE x \in S : TRUE IN FAdd(f[i], FSumRec(p, S \ {i}, f))
FSumOf(p, S, f) == Let1(f, LAMBDA g : FSumRec(p, S, g))
RECURSIVE QSumOf(_, _)
QSumOf(S, f) == IF S = {} THEN Zero ELSE LET i == CHOOSE x \in S : TRUE IN QAdd(f[i], QSumOf(S \ {i}, f))
WithFlip(p, f) == IF p.ess THEN Let1(f, LAMBDA x : FAdd(x, FFlip(x))) ELSE f

(* ------------------------------------------------ promolecule and shares *)
Frac(p, ns, s) == WithFlip(p, FSumOf(p, Of(p, s), TLCEval([i \in Fr(p) |-> FScale(Scale(p, i), ns[i])])))
NF(p, f) == Let1(f, LAMBDA ns : FAdd(Frac(p, ns, 1), Frac(p, ns, 2)))
QDiv0(a, b) == IF b = Zero THEN Zero ELSE QDiv(a, b)
Shares(p, ns) == Let1(NF(p, ns), LAMBDA nf :
  [i \in Fr(p) |-> FMap2(FScale(Scale(p, i), ns[i]), nf, QDiv0)])
(* one field made of the fragments' fields f, weighted by their shares q *)
Assemble(p, q, f) ==
  Let1(WithFlip(p, FSumOf(p, Fr(p), [i \in Fr(p) |-> FMulF(q[i], f[i])])),
       LAMBDA g : IF p.absym THEN FSym(g) ELSE g)

RECURSIVE ISqrt(_, _)                 \* smallest x >= lo with x*x >= k
ISqrt(k, lo) == IF lo * lo >= k THEN lo ELSE ISqrt(k, lo + 1)
QSqrt(q0) == Let1(q0, LAMBDA q :
  Let1(<<ISqrt(q[1], 0), ISqrt(q[2], 0)>>, LAMBDA r :
    IF Assert(r[1] * r[1] = q[1] /\ r[2] * r[2] = q[2], <<"not a square", q>>) THEN QF(r[1], r[2]) ELSE Zero))
(* von Weizsaecker kinetic functional of the square root of the density, on *)
(* a lattice whose volume elements are the squares of WSq and whose         *)
(* Laplacian is LMat; a site without density has no kinetic potential       *)
WSq == <<1, 2, 1, 4, 1, 4>>
LMat == <<<<2, 1, 0, -1, 0, 1>>, <<1, 3, 1, 0, 2, 0>>, <<0, 1, 2, 1, 0, -1>>,
          <<0, -1, 1, 4, 1, 0>>, <<1, 0, 1, 2, 1, 2>>, <<1, -1, 0, 0, 1, 4>>>>
VW(col) == Let1(col, LAMBDA k : [x \in Sites |-> IF k[x] = Zero THEN Zero ELSE
   QMul(<<-1, 2>>, QSum([y \in Sites |->
      QMul(QF(LMat[x][y], WSq[x] * WSq[y]), QSqrt(QDiv(k[y], k[x])))]))])
TW(col) == Let1(col, LAMBDA k : QMul(<<-1, 2>>, QSum([x \in Sites |-> QSum([y \in Sites |->
      QMul(QF(LMat[x][y], WSq[x] * WSq[y]), QSqrt(QMul(k[y], k[x])))])])))
VKinetic(p, f) == IF p.kin = "vonweiz" THEN Let1(f, LAMBDA n : [s \in 1..p.pol |-> VW(n[s])])
                  ELSE VFun(KF, f)
(* --------------------------------------------- the parts of the potential *)
Both(p) == FAdd(PF(p, 1), PF(p, 2))
VpPot(p, i) == FSub(Both(p), Nuc(p, i))
(* an inverter: for the density n it is given (one spin column; doubled for *)
(* polarised calculations) it finds the potential 3 n + s and the chemical  *)
(* potential 7 s, the kinetic energy of that column being the sum of n and  *)
(* the kinetic energy density 5 n; spin-symmetric ensembles are inverted    *)
(* once                                                                     *)
InvTarget(p, ns) == FScale(Q(p.pol), NF(p, ns))
InvCol(p, s) == IF p.ess THEN 1 ELSE s
VtInverted(p, ns) == Let1(InvTarget(p, ns), LAMBDA n :
   [s \in 1..p.pol |-> [x \in Sites |->
       QSub(Q(7 * InvCol(p, s)), QAdd(QMulI(3, n[InvCol(p, s)][x]), Q(InvCol(p, s))))]])
TsInverted(p, ns) == Let1(InvTarget(p, ns), LAMBDA n :
   QSum([s \in 1..p.pol |-> QSum(n[InvCol(p, s)])]))
tsInverted(p, ns) == Let1(InvTarget(p, ns), LAMBDA n :
   [x \in Sites |-> QMulI(5, QSum([s \in 1..p.pol |-> n[InvCol(p, s)][x]]))])

VpKin(p, ns, i) == IF p.kin = "none" THEN FZero(p.pol)
                   ELSE FSub(VKinetic(p, NF(p, ns)), VKinetic(p, ns[i]))
Interacts(p) == p.type = "dft"
VpH(p, ns, i) == IF Interacts(p) THEN FSub(VHartree(NF(p, ns)), VHartree(ns[i])) ELSE FZero(p.pol)
VpX(p, ns, i) == IF Interacts(p) THEN FSub(VFun(XF, NF(p, ns)), VFun(XF, ns[i])) ELSE FZero(p.pol)
VpC(p, ns, i) == IF Interacts(p) THEN FSub(VFun(CF, NF(p, ns)), VFun(CF, ns[i])) ELSE FZero(p.pol)
(* overlap functional F = erf(2 S), S the integral of sqrt(n_A n_B); every  *)
(* overlap quantity is A + F B + G C with G = dF/dS and rational A, B, C    *)
Overlap(p, ns) == Let1(<<Total(Frac(p, ns, 1)), Total(Frac(p, ns, 2))>>, LAMBDA z :
                      QSum([i \in Sites |-> QSqrt(QMul(z[1][i], z[2][i]))]))
DHalf(a, b) == Let1(<<a, b>>, LAMBDA z : [x \in Sites |->
  IF z[1][x] = Zero THEN Zero ELSE QMul(Half, QSqrt(QDiv(z[2][x], z[1][x])))])
DSdn(p, ns, i) ==
  Let1(DHalf(Total(Frac(p, ns, Side(p, i))), Total(Frac(p, ns, 3 - Side(p, i)))),
       LAMBDA h : [s \in 1..p.pol |-> h])
(* the Hartree field a fragment feels when the electrons keep apart: that   *)
(* of the fragment completing the electron number                           *)
Opposite(p, i) == IF Ens(p) THEN 5 - i ELSE 3 - i    \* a-B, A-b
VhCor(p, ns, i) ==
  IF ~Ens(p) /\ ~p.ess THEN FZero(p.pol)
  ELSE IF Ens(p) THEN VHartree(ns[Opposite(p, i)]) ELSE FFlip(VHartree(ns[Opposite(p, i)]))
EhCor(p, ns) ==
  LET w(i) == QMul(QMul(QMul(Flips(p), Scale(p, i)), Half),
                   FInt2(ns[i], VhCor(p, ns, i)))
  IN  QSum([i \in Fr(p) |-> w(i)])
EFr(p, ns, i, e(_)) == e(ns[i])
EpOf(p, ns, e(_)) ==     \* molecular value minus weighted fragment values
  QSub(Let1(NF(p, ns), e), QMul(Flips(p), QSum([i \in Fr(p) |-> QMul(Scale(p, i), e(ns[i]))])))
EpH(p, ns) == IF Interacts(p) THEN EpOf(p, ns, LAMBDA n : EHartree(n)) ELSE Zero
EpX(p, ns) == IF Interacts(p) THEN EpOf(p, ns, LAMBDA n : EFun(XF, n)) ELSE Zero
EpC(p, ns) == IF Interacts(p) THEN EpOf(p, ns, LAMBDA n : EFun(CF, n)) ELSE Zero
(* en: the fragments' energies, for the inversion *)
EpKin(p, ns, en) ==
  CASE p.kin = "none" -> Zero
    [] p.kin = "vonweiz" -> EpOf(p, ns, LAMBDA n : TW(Total(n)))
    [] p.kin = "inversion" ->
         QSub(TsInverted(p, ns), QMul(Flips(p), QSum([i \in Fr(p) |-> QMul(Scale(p, i), en[i].Ts)])))
    [] OTHER -> EpOf(p, ns, LAMBDA n : EFun(KF, n))
EpPot(p, ns) == QAdd(Dot(Total(Frac(p, ns, 1)), PF(p, 2)[1]), Dot(Total(Frac(p, ns, 2)), PF(p, 1)[1]))
IsOverlap(p) == p.hxc \in {"overlap_xc", "overlap_hxc"}
EpHxc(p, ns) ==
  LET h == EpH(p, ns)  x == EpX(p, ns)  c == EpC(p, ns)
  IN  CASE p.hxc = "exact" -> [a |-> QSum(<<h, x, c>>), b |-> Zero]
        [] p.hxc = "hartree" -> [a |-> h, b |-> Zero]
        [] p.hxc = "overlap_xc" -> [a |-> h, b |-> QAdd(x, c)]
        [] p.hxc = "overlap_hxc" ->
             LET k == EhCor(p, ns) IN [a |-> k, b |-> QSub(QSum(<<h, x, c>>), k)]
VpHxc(p, ns, i) ==
  LET h == VpH(p, ns, i)  x == VpX(p, ns, i)  c == VpC(p, ns, i)  z == FZero(p.pol)
  IN  CASE p.hxc = "exact" -> [a |-> FAdd(FAdd(h, x), c), b |-> z, c |-> z]
        [] p.hxc = "hartree" -> [a |-> h, b |-> z, c |-> z]
        [] p.hxc = "overlap_xc" -> [a |-> h, b |-> FAdd(x, c),
             c |-> FScale(QAdd(EpX(p, ns), EpC(p, ns)), DSdn(p, ns, i))]
        [] p.hxc = "overlap_hxc" ->
             LET k == VhCor(p, ns, i) IN
             [a |-> k, b |-> FSub(FAdd(FAdd(h, x), c), k),
              c |-> FScale(QSub(QSum(<<EpH(p, ns), EpX(p, ns), EpC(p, ns)>>), EhCor(p, ns)), DSdn(p, ns, i))]
(* energy densities: molecular minus the fragments' in shares of the total *)
TShares(p, ns) ==
  Let1(Total(NF(p, ns)), LAMBDA t :
  [i \in Fr(p) |-> Let1(Total(ns[i]), LAMBDA u :
     [x \in Sites |-> QDiv0(QMul(QMul(Flips(p), Scale(p, i)), u[x]), t[x])])])
EpField(p, ns, e(_)) ==
  Let1(<<TShares(p, ns), Let1(NF(p, ns), e), [i \in Fr(p) |-> Let1(ns[i], e)]>>, LAMBDA z :
    [x \in Sites |-> QSub(z[2][x], QSum([i \in Fr(p) |-> QMul(z[1][i][x], z[3][i][x])]))])

(* ------------------------------------------------- fragments' own energies *)
SolverTs(orbs, v, n4, cap) ==
  QSum([k \in 1..Len(orbs) |-> QMul(Occ(k, n4, cap), QSub(orbs[k].e, v[orbs[k].site]))])
(* energies without the sums over potentials, whose denominators would grow *)
EnergyD(c, n, orbs, v) ==
  LET ts == QSum([s \in Cols(c) |-> SumRows(c, LAMBDA r : SolverTs(orbs[r][s], v[s], c.n4[r][s], Cap(c.pol, r - 1)))])
      enuc == FInt2(n, c.nuc)
      dft == c.type = "dft"
      eh == IF dft THEN EHartree(n) ELSE Zero
      ex == IF dft THEN EFun(XF, n) ELSE Zero
      ec == IF dft THEN EFun(CF, n) ELSE Zero
      et == QSum(<<ts, enuc, eh, ex, ec>>)
  IN  TLCEval([Ts |-> ts, Enuc |-> enuc, Eh |-> eh, Ex |-> ex, Ec |-> ec, Et |-> et,
               E |-> QAdd(et, Vnn(c)), evals |-> Evals(c, orbs)])
Weighted(p, S, f(_)) == QMul(Flips(p), QSumOf(S, [i \in Fr(p) |-> QMul(Scale(p, i), f(i))]))
(* the complete record of a partition calculation with densities ns and     *)
(* fragment energies en; the overlap part of the partition energy is b      *)
PEnergy(p, ns, en, iso) ==
  LET side(s, f(_)) == Weighted(p, Of(p, s), f)
      all(f(_)) == QAdd(side(1, f), side(2, f))
      dft(f(_)) == IF Interacts(p) THEN all(f) ELSE Zero
      z == [a |-> Zero, b |-> Zero]
      pot == IF iso THEN Zero ELSE EpPot(p, ns)
      kin == IF iso THEN Zero ELSE EpKin(p, ns, en)
      hxc == IF iso THEN z ELSE EpHxc(p, ns)
      ef == all(LAMBDA i : en[i].E)
      ep == QSum(<<pot, kin, hxc.a>>)
  IN  TLCEval([Ea |-> side(1, LAMBDA i : en[i].E), Eb |-> side(2, LAMBDA i : en[i].E), Ef |-> ef,
        Tsf |-> all(LAMBDA i : en[i].Ts), Enucf |-> all(LAMBDA i : en[i].Enuc),
        Exf |-> dft(LAMBDA i : en[i].Ex), Ecf |-> dft(LAMBDA i : en[i].Ec), Ehf |-> dft(LAMBDA i : en[i].Eh),
        Ep_pot |-> pot, Ep_kin |-> kin, Ep_hxc |-> hxc.a, Ep |-> ep,
        Et |-> QAdd(ef, ep), Vnn |-> PVnn(p), E |-> QSum(<<ef, ep, PVnn(p)>>),
        over |-> hxc.b,
        h |-> IF iso THEN Zero ELSE EpH(p, ns), x |-> IF iso THEN Zero ELSE EpX(p, ns),
        c |-> IF iso THEN Zero ELSE EpC(p, ns)])
=============================================================================
