------------------------------ MODULE KSModel -------------------------------
(***************************************************************************)
(* The Kohn-Sham calculation on a lattice of sites, in exact arithmetic.    *)
(* Used by C13 (KSOps), C14 (KSScf), C15 (Workers) and the partition        *)
(* modules.                                                                 *)
(*                                                                          *)
(* A field is a sequence over spin columns of sequences over sites of       *)
(* rationals.  Densities hold electrons per site (the grid's density times  *)
(* the site's integration weight), so integrals are plain sums.             *)
(*                                                                          *)
(* Orbital solvers are abstract: orbital k of the solver of angular number  *)
(* m lives on the site of rank k+m in the order of the potential, and its   *)
(* level is the potential there plus a kinetic part 1+m (calc) or 3/2+m     *)
(* (iterative refinement), so that results tell which was used.  The        *)
(* functionals are linear couplings of site occupations with given integer  *)
(* coefficients; the Hartree potential is a given integer matrix.           *)
(***************************************************************************)
EXTENDS Rat, Json

CONSTANTS Mirror,    \* sequence: mirror image of every site
          HMat,      \* Hartree matrix
          XF, CF     \* exchange, correlation: <<e0, e1, a, b, c>>

Ns == Len(Mirror)
Sites == 1..Ns
NegInf == <<-(1000 * 1000 * 1000), 1>>       \* the level of an empty solver
Half == <<1, 2>>
QMulI(i, q) == QMul(Q(i), q)

(* F(x) with x evaluated once (TLC re-evaluates arguments of operators inside *)
(* functions)                                                               *)
Let1(x, F(_)) == CHOOSE y \in {TLCEval(F(a)) : a \in {TLCEval(x)}} : TRUE
FConst(p, q) == [s \in 1..p |-> [i \in Sites |-> q]]
FZero(p) == FConst(p, Zero)
FMap2(f, g, Op(_, _)) == Let1(<<f, g>>, LAMBDA x : [s \in 1..Len(x[1]) |-> [i \in Sites |-> Op(x[1][s][i], x[2][s][i])]])
FAdd(f, g) == FMap2(f, g, QAdd)
FSub(f, g) == FMap2(f, g, QSub)
FMulF(f, g) == FMap2(f, g, QMul)
FScale(q, f) == Let1(<<q, f>>, LAMBDA x : [s \in 1..Len(x[2]) |-> [i \in Sites |-> QMul(x[1], x[2][s][i])]])
FMirror(f) == Let1(f, LAMBDA x : [s \in 1..Len(x) |-> [i \in Sites |-> x[s][Mirror[i]]]])
FFlip(f) == Let1(f, LAMBDA x : [s \in 1..Len(x) |-> x[Len(x) + 1 - s]])
FSym(f) == Let1(f, LAMBDA x : FScale(Half, FAdd(x, FMirror(x))))
FMix(a, old, new) == FAdd(FScale(QSub(One, a), old), FScale(a, new))
FInt(k) == TLCEval([s \in 1..Len(k) |-> [i \in Sites |-> Q(k[s][i])]])
Total(f) == Let1(f, LAMBDA x : [i \in Sites |-> IF Len(x) = 1 THEN x[1][i] ELSE QAdd(x[1][i], x[2][i])])
Dot(x, y) == Let1(<<x, y>>, LAMBDA z : QSum([i \in Sites |-> QMul(z[1][i], z[2][i])]))      \* one column each
FInt2(f, g) == Let1(<<f, g>>, LAMBDA z : QSum([s \in 1..Len(z[1]) |-> Dot(z[1][s], z[2][s])])) \* integral of f*g over all spins
ColAbs(f) == Let1(f, LAMBDA x : QSum([i \in Sites |-> QAbs(x[i])]))
Electrons(f) == QSum(Total(f))

(* ----------------------------------------------------------- functionals *)
HField(t) == Let1(t, LAMBDA x : [i \in Sites |-> QSum([j \in Sites |-> QMulI(HMat[i][j], x[j])])])
VHartree(f) == Let1(f, LAMBDA n : Let1(HField(Total(n)), LAMBDA h : [s \in 1..Len(n) |-> h]))
EHartree(f) == Let1(f, LAMBDA n : QMul(Half, Dot(Total(n), VHartree(n)[1])))
VFun(F, f) == Let1(f, LAMBDA n : [s \in 1..Len(n) |-> [i \in Sites |->
   IF Len(n) = 1 THEN QAdd(QMul(QF(F[3] + F[4], 2), n[1][i]), Q(F[5]))
   ELSE QAdd(QAdd(QMulI(F[3], n[s][i]), QMulI(F[4], n[3 - s][i])), Q(F[5]))]])
EpsFun(F, n) == Let1(Total(n), LAMBDA t : [i \in Sites |-> QAdd(Q(F[1]), QMulI(F[2], t[i]))])
EFun(F, f) == Let1(f, LAMBDA n : Dot(EpsFun(F, n), Total(n)))

(* --------------------------------------------------------------- solvers *)
Before(v, i, j) == QLess(v[i], v[j]) \/ (v[i] = v[j] /\ i < j)
Rank(v, i) == Len(SelectSeq([j \in Sites |-> j], LAMBDA j : Before(v, j, i)))   \* 0-based
Orbitals(f, nmo, m, iter) ==
  Let1(f, LAMBDA v : Let1([i \in Sites |-> Rank(v, i)], LAMBDA rk :
  [k \in 1..nmo |->
    LET i == CHOOSE j \in Sites : rk[j] = (k - 1 + m) % Ns
    IN  [site |-> i, e |-> QAdd(v[i], QAdd(Q(1 + m), IF iter THEN Half ELSE Zero))]]))
Cap(pol, m) == (IF pol = 1 THEN 2 ELSE 1) * (IF m = 0 THEN 1 ELSE 2)
Occ(k, n4, cap) == QF(Min2(Max2(n4 - (k - 1) * 4 * cap, 0), 4 * cap), 4)
Filled(n4, cap) == IF n4 = 0 THEN 0 ELSE ((n4 - 1) \div (4 * cap)) + 1
SolverDens(orbs, n4, cap) ==
  TLCEval([i \in Sites |-> QSum([k \in 1..Len(orbs) |->
     IF orbs[k].site = i THEN Occ(k, n4, cap) ELSE Zero])])
SolverEks(orbs, n4, cap) == QSum([k \in 1..Len(orbs) |-> QMul(Occ(k, n4, cap), orbs[k].e)])
SolverHomo(orbs, n4, cap) == IF n4 = 0 THEN NegInf ELSE orbs[Filled(n4, cap)].e

(* A configuration c: [type, pol, sym, nmo, n4, za, zb, nuc], nmo and n4    *)
(* being sequences over rows m = 0, 1, .. of sequences over columns.        *)
Rows(c) == 1..Len(c.nmo)
Cols(c) == 1..c.pol
Solve(c, v, iter) == TLCEval([r \in Rows(c) |-> [s \in Cols(c) |-> Orbitals(v[s], c.nmo[r][s], r - 1, iter)]])
SumRows(c, f(_)) == LET t == [r \in Rows(c) |-> f(r)] IN QSum(t)
Raw(c, orbs) ==
  Let1([r \in Rows(c) |-> [s \in Cols(c) |-> SolverDens(orbs[r][s], c.n4[r][s], Cap(c.pol, r - 1))]],
       LAMBDA d : [s \in Cols(c) |-> [i \in Sites |-> SumRows(c, LAMBDA r : d[r][s][i])]])
Density(c, orbs) == IF c.sym THEN FSym(Raw(c, orbs)) ELSE Raw(c, orbs)
Vhxc(c, n) ==
  LET v == IF c.type = "ni" THEN FZero(c.pol)
           ELSE FAdd(FAdd(VFun(XF, n), VFun(CF, n)), VHartree(n))
  IN  IF c.sym THEN FSym(v) ELSE v
Eks(c, orbs) == TLCEval([s \in Cols(c) |-> SumRows(c, LAMBDA r : SolverEks(orbs[r][s], c.n4[r][s], Cap(c.pol, r - 1)))])
Vks(c, orbs, v) == TLCEval([s \in Cols(c) |-> SumRows(c, LAMBDA r :
                      Dot(SolverDens(orbs[r][s], c.n4[r][s], Cap(c.pol, r - 1)), v[s]))])
Evals(c, orbs) == [r \in Rows(c) |-> [s \in Cols(c) |->
                     IF c.nmo[r][s] = 0 THEN <<NegInf>>
                     ELSE [k \in 1..Len(orbs[r][s]) |-> orbs[r][s][k].e]]]
QMaxSeq(x) == CHOOSE q \in {x[i] : i \in 1..Len(x)} : \A i \in 1..Len(x) : QLeq(x[i], q)
ChemPot(c, orbs) == QMaxSeq([r \in Rows(c) |-> QMaxSeq([s \in Cols(c) |->
                      SolverHomo(orbs[r][s], c.n4[r][s], Cap(c.pol, r - 1))])])
ABond == <<5, 4>>                               \* half bond length
Vnn(c) == QDiv(QF(c.za * c.zb, 2), ABond)
(* energies of the density n, orbitals orbs solved in v, fields vext, vhxc *)
Energy(c, n, orbs, v, vext, vhxc) ==
  LET eks == Eks(c, orbs)  vks == Vks(c, orbs, v)
      ts == QSub(QSum(eks), QSum(vks))
      enuc == FInt2(n, c.nuc)
      dft == c.type = "dft"
      eh == IF dft THEN EHartree(n) ELSE Zero
      ex == IF dft THEN EFun(XF, n) ELSE Zero
      ec == IF dft THEN EFun(CF, n) ELSE Zero
      et == QSum(<<ts, enuc, eh, ex, ec>>)
  IN  TLCEval([Eks |-> eks, Vks |-> vks, Ts |-> ts, Enuc |-> enuc, Vext |-> FInt2(n, vext),
       Vhxc |-> FInt2(n, vhxc), Eh |-> eh, Ex |-> ex, Ec |-> ec, Et |-> et,
       Vnn |-> Vnn(c), E |-> QAdd(et, Vnn(c)), evals |-> Evals(c, orbs)])
=============================================================================
