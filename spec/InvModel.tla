------------------------------- MODULE InvModel -------------------------------
(***************************************************************************)
(* Six-site systems whose orbitals, levels and potential are known exactly, *)
(* shared by Inversion and InitGuess.  Two ways of building one: "one"      *)
(* keeps a fixed operator that connects neighbouring sites, so every        *)
(* positive vector is the lowest orbital of exactly one potential (up to a  *)
(* constant); "many" takes orthogonal vectors and a potential and builds    *)
(* for every angular momentum the operator with these orbitals at the       *)
(* chosen levels and everything else at a high one.                         *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, Json
Ns == 6
Sites == 1..Ns
Mirror == <<3, 2, 1, 6, 5, 4>>
Wt == <<1, 2, 1, 2, 1, 2>>                 \* volume elements
Wi == <<3, 4>>                             \* the integral carries one more constant factor
(* Operator arguments are evaluated once when bound through Let1. *)
Let1(x, F(_)) == CHOOSE y \in {TLCEval(F(a)) : a \in {TLCEval(x)}} : TRUE
(* f(w), w the weighted inner product *)
IP(a, b) == ISum([i \in Sites |-> Wt[i] * a[i] * b[i]])
Cap(pol, m) == (IF pol = 1 THEN 2 ELSE 1) * (IF m = 0 THEN 1 ELSE 2)
Occ(k, n4, cap) == QF(Min2(Max2(n4 - (k - 1) * 4 * cap, 0), 4 * cap), 4)
Filled(n4, cap) == IF n4 = 0 THEN 0 ELSE ((n4 - 1) \div (4 * cap)) + 1

(* ------------------------------------------------------------- operators *)
(* "one": neighbours connected, all of one sign: -1/2 L has a positive lowest orbital *)
LapOne == << <<-4, 2, 1, 1, 0, 0>>, <<2, -6, 2, 0, 2, 0>>, <<1, 2, -4, 0, 0, 1>>,
             <<1, 0, 0, -3, 1, 1>>, <<0, 2, 0, 1, -4, 1>>, <<0, 0, 1, 1, 1, -3>> >>
HOne(x) == TLCEval([i \in Sites |-> [j \in Sites |-> QF(-LapOne[i][j], 2)]])
(* the potential of which phi is the lowest orbital, at level e *)
VOne(phi, e) == TLCEval([i \in Sites |->
    QSub(e, QDiv(QF(-ISum([j \in Sites |-> LapOne[i][j] * phi[j]]), 2), Q(Wt[i] * phi[i])))])
(* "many": kinetic part (with the angular part) of the operator with the given orbitals *)
Proj(phi, i, j) == QF(Wt[i] * phi[i] * Wt[j] * phi[j], IP(phi, phi))
High == Q(3)
HMany(phis, es, v) == TLCEval([i \in Sites |-> [j \in Sites |->
    Let1(QSum([k \in 1..Len(phis) |-> QMul(QSub(es[k], High), Proj(phis[k], i, j))]),
         LAMBDA s : IF i = j THEN QAdd(s, QMul(QSub(High, v[i]), Q(Wt[i]))) ELSE s)]])

(* A system: pol, ess, sym (options), n4[row][spin] electrons in quarters, fam,
   phis[row] or, for "one", phis[1][spin]; es[row]; v (for "many") *)
Rows(s) == 1..Len(s.n4)
Phi(s, r, p) == IF s.fam = "one" THEN <<s.phis[1][p]>> ELSE s.phis[r]      \* r > 2: a prefix of r - 2
Lev(s, r, p) == IF s.fam = "one" THEN <<s.es[1][p]>> ELSE s.es[r]
Pot(s, p) == IF s.fam = "one" THEN VOne(s.phis[1][p], s.es[1][p]) ELSE [i \in Sites |-> QF(s.v[i], 2)]
(* angular momenta m and m + 2 have the radial operator in common: they differ by the
   angular part, (m + 2)^2 - m^2 per unit of f = 1 *)
Angular(r) == (r - 1) * (r - 1) - (r - 3) * (r - 3)
Shift(h, a) == TLCEval([i \in Sites |-> [j \in Sites |-> IF i = j THEN QAdd(h[i][j], Q(a * Wt[i])) ELSE h[i][j]]])
Kin(s, r) == IF s.fam = "one" THEN HOne(1)
             ELSE IF r <= 2 THEN HMany(s.phis[r], s.es[r], Pot(s, 1))
             ELSE Let1(HMany(s.phis[r - 2], s.es[r - 2], Pot(s, 1)), LAMBDA h : Shift(h, Angular(r)))
Nocc(s, r, p) == Filled(s.n4[r][p], Cap(s.pol, r - 1))
OccOf(s, r, p, k) == Occ(k, s.n4[r][p], Cap(s.pol, r - 1))
(* what every orbital contributes: weight over norm *)
Share(s, r, p, k) == QDiv(OccOf(s, r, p, k), QMul(Wi, Q(IP(Phi(s, r, p)[k], Phi(s, r, p)[k]))))
SumOcc(s, p, F(_, _)) == QSum([r \in Rows(s) |-> QSum([k \in 1..Nocc(s, r, p) |-> F(r, k)])])
Dens(s, p) == TLCEval([i \in Sites |-> SumOcc(s, p, LAMBDA r, k : QMul(Share(s, r, p, k), Q(Phi(s, r, p)[k][i] * Phi(s, r, p)[k][i])))])
Apply(h, phi) == TLCEval([i \in Sites |-> QSum([j \in Sites |-> QMul(h[i][j], Q(phi[j]))])])
Ked(s, p) == Let1([r \in Rows(s) |-> Let1(Kin(s, r), LAMBDA h : [k \in 1..Nocc(s, r, p) |-> Apply(h, Phi(s, r, p)[k])])],
  LAMBDA t : [i \in Sites |-> SumOcc(s, p, LAMBDA r, k :
      QDiv(QMul(Share(s, r, p, k), QMul(Q(Phi(s, r, p)[k][i]), t[r][k][i])), Q(Wt[i])))])
(* kinetic energy from the levels: all of it less the potential's part *)
TsOf(s, p) == Let1(<<Pot(s, p), Dens(s, p)>>, LAMBDA x :
  QSub(SumOcc(s, p, LAMBDA r, k : QMul(OccOf(s, r, p, k), Lev(s, r, p)[k])),
       QMul(Wi, QSum([i \in Sites |-> QMul(Q(Wt[i]), QMul(x[1][i], x[2][i]))]))))
Top(s, p) == LET ls == {Lev(s, r, p)[k] : <<r, k>> \in {<<a, b>> \in Rows(s) \X (1..4) : b <= Nocc(s, a, p)}}
             IN CHOOSE e \in ls : \A f \in ls : QLeq(f, e)
Vt(s, p) == Let1(<<Top(s, p), Pot(s, p)>>, LAMBDA x : [i \in Sites |-> QSub(x[1], x[2][i])])
Electrons(s, p) == QF(ISum([r \in Rows(s) |-> s.n4[r][p]]), 4)

(* ------------------------------------------------------------- instances *)
Sy(fam, pol, ess, sym, n4, phis, es, v) ==
  [fam |-> fam, pol |-> pol, ess |-> ess, sym |-> sym, n4 |-> n4, phis |-> phis, es |-> es, v |-> v]
A1 == <<1, 2, 1, 2, 1, 1>>   A2 == <<2, 1, 1, 1, 2, 3>>   A3 == <<1, 1, 2, 1, 3, 2>>
S1 == <<1, 2, 1, 2, 1, 2>>   S2 == <<2, 1, 2, 1, 3, 1>>
(* orthogonal under the weights, first one positive *)
B1 == <<1, 1, 2, 1, 1, 1>>   B2 == <<1, -2, -1, 1, 1, 1>>    B3 == <<1, -1, 2, -2, 1, 0>>
D1 == <<1, 2, 1, 1, 2, 1>>   D2 == <<1, -2, 1, 1, 1, 1>>
(* and with a mirror image of their own: even and odd *)
E1 == <<1, 1, 1, 1, 2, 1>>   E2 == <<-2, 0, 2, -1, 0, 1>>   VS == <<-1, 2, -1, 1, 0, 1>>
V1 == <<-3, 1, 0, -2, 2, 1>>
N0 == <<0, 0, 0, 0, 0, 0>>
Ones ==
  { Sy("one", 1, FALSE, FALSE, << <<8>> >>, << <<a>> >>, << <<e>> >>, N0) : a \in {A1, A2, A3}, e \in {Q(-1), QF(3, 2)} }
  \cup { Sy("one", 1, FALSE, FALSE, << <<6>> >>, << <<A2>> >>, << <<Q(-1)>> >>, N0) }
  \cup { Sy("one", 1, FALSE, TRUE, << <<8>> >>, << <<a>> >>, << <<Q(-1)>> >>, N0) : a \in {S1, S2} }
  \cup { Sy("one", 2, FALSE, FALSE, << <<4, 4>> >>, << <<A1, A3>> >>, << <<Q(-1), QF(1, 2)>> >>, N0),
         Sy("one", 2, FALSE, TRUE, << <<4, 4>> >>, << <<S1, S2>> >>, << <<Q(-1), Q(-2)>> >>, N0),
         Sy("one", 2, FALSE, FALSE, << <<4, 2>> >>, << <<A3, A2>> >>, << <<Q(-1), Q(-1)>> >>, N0),
         Sy("one", 2, TRUE, FALSE, << <<4, 4>> >>, << <<A2, A2>> >>, << <<Q(-1), Q(-1)>> >>, N0),
         Sy("one", 2, TRUE, TRUE, << <<4, 4>> >>, << <<S2, S2>> >>, << <<Q(-1), Q(-1)>> >>, N0) }
Manys ==
  { Sy("many", 1, FALSE, FALSE, << <<16>> >>, << <<B1, B2>> >>, << <<Q(-2), Q(-1)>> >>, V1),
    Sy("many", 1, FALSE, FALSE, << <<14>> >>, << <<B1, B2>> >>, << <<Q(-2), QF(-1, 2)>> >>, V1),
    Sy("many", 1, FALSE, FALSE, << <<8>>, <<16>> >>, << <<B1>>, <<D1>> >>, << <<Q(-3)>>, <<Q(-1)>> >>, V1),
    Sy("many", 1, FALSE, FALSE, << <<16>>, <<16>> >>, << <<B1, B2>>, <<D1>> >>, << <<Q(-3), Q(0)>>, <<Q(-1)>> >>, V1),
    Sy("many", 2, FALSE, FALSE, << <<8, 4>> >>, << <<B1, B2>> >>, << <<Q(-2), Q(-1)>> >>, V1),
    Sy("many", 2, FALSE, FALSE, << <<8, 4>>, <<8, 8>> >>, << <<B1, B2>>, <<D1>> >>, << <<Q(-3), Q(0)>>, <<Q(-1)>> >>, V1),
    Sy("many", 1, FALSE, FALSE, << <<20>>, <<20>> >>, << <<B1, B2, B3>>, <<D1, D2>> >>, << <<Q(-3), Q(-2), Q(1)>>, <<Q(-1), Q(0)>> >>, V1),
    Sy("many", 1, FALSE, TRUE, << <<16>> >>, << <<E1, E2>> >>, << <<Q(-2), Q(-1)>> >>, VS),
    Sy("many", 1, FALSE, TRUE, << <<8>>, <<32>> >>, << <<E1>>, <<D1, E2>> >>, << <<Q(-2)>>, <<Q(-2), Q(-1)>> >>, VS),
    Sy("many", 2, FALSE, TRUE, << <<8, 4>> >>, << <<E1, E2>> >>, << <<Q(-2), Q(-1)>> >>, VS),
    Sy("many", 2, TRUE, FALSE, << <<4, 4>>, <<8, 8>> >>, << <<B1>>, <<D1>> >>, << <<Q(-1)>>, <<Q(-2)>> >>, V1) }
Deltas ==
  { Sy("many", 1, FALSE, FALSE, << <<8>>, <<16>>, <<n>> >>, << <<B1>>, <<D1>>, <<B1>> >>, << <<Q(-3)>>, <<Q(-1)>>, <<Q(1)>> >>, V1) : n \in {16, 6} }
  \cup { Sy("many", 1, FALSE, FALSE, << <<16>>, <<16>>, <<32>>, <<16>> >>, << <<B1, B2>>, <<D1>>, <<B1, B2>>, <<D1>> >>,
             << <<Q(-5), Q(-2)>>, <<Q(-3)>>, <<Q(-1), Q(2)>>, <<Q(5)>> >>, V1),
          Sy("many", 2, FALSE, FALSE, << <<8, 4>>, <<8, 8>>, <<8, 8>> >>, << <<B1, B2>>, <<D1>>, <<B1>> >>, << <<Q(-3), Q(0)>>, <<Q(-1)>>, <<Q(1)>> >>, V1),
          Sy("many", 2, TRUE, FALSE, << <<4, 4>>, <<8, 8>>, <<8, 8>> >>, << <<B1>>, <<D1>>, <<B1>> >>, << <<Q(-1)>>, <<Q(-2)>>, <<Q(3)>> >>, V1),
          Sy("many", 1, FALSE, TRUE, << <<8>>, <<16>>, <<16>> >>, << <<E1>>, <<D1>>, <<E1>> >>, << <<Q(-2)>>, <<Q(-2)>>, <<Q(2)>> >>, VS) }
SomeSystems == Ones \cup Manys \cup Deltas
MoreSystems == SomeSystems
  \cup { Sy("one", 1, FALSE, FALSE, << <<n>> >>, << << <<a, 2, b, 1, 3, 2>> >> >>, << <<Q(e)>> >>, N0) :
            a \in 1..3, b \in 1..3, e \in {-2, 0}, n \in {8, 5} }
  \cup { Sy("one", 2, FALSE, FALSE, << <<4, 4>> >>, << << <<a, 2, b, 1, 3, 2>>, <<b, 1, 1, a, 2, 2>> >> >>, << <<Q(-1), Q(1)>> >>, N0) :
            a \in 1..3, b \in 1..3 }
  \cup { Sy("many", 1, FALSE, FALSE, << <<16>>, <<n>> >>, << <<B1, B2>>, <<D1>> >>, << <<Q(-3), Q(e)>>, <<Q(f)>> >>, V1) :
            n \in {16, 10}, e \in {-1, 0}, f \in {-2, 0, 1} }
=============================================================================
