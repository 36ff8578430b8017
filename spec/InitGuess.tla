------------------------------ MODULE InitGuess ------------------------------
(***************************************************************************)
(* C28.  Where the inversion of a promolecule starts.                       *)
(*                                                                          *)
(* The starting potential is the fragments' effective potentials weighted   *)
(* with their Q functions; the starting orbitals are, for every angular     *)
(* momentum, the states that are best in it among the combinations of the   *)
(* fragments' own orbitals (and with ab_sym their mirror images), as many   *)
(* as the molecule's solver holds.                                          *)
(*                                                                          *)
(* Systems are built backwards: a potential with known eigenvectors         *)
(* (InvModel); the wanted states X, one or a sum of several eigenvectors,   *)
(* no eigenvector in two; fragments whose orbitals are slanted combinations *)
(* of the X, not orthogonal to each other; effective potentials that give   *)
(* the known one when weighted.  Which fragment carries how many orbitals   *)
(* of which angular momentum is the environment's choice.                   *)
(***************************************************************************)
EXTENDS InvModel
CONSTANTS Systems
VARIABLES c, p, out
vars == <<c, p, out>>
(* c: base (a system of InvModel), x[row]: the wanted states as rows of integer
   combinations of the row's eigenvectors; comb[fragment][spin][row]: each of its
   orbitals as an integer combination of the x; q[fragment]: weights in twelfths,
   slant: how far the fragments' potentials are from the wanted one;
   keep[row]: how many states the molecule's solver holds *)
Frags == 1..Len(c.comb)
Spins == 1..c.base.pol
V(s) == [i \in Sites |-> QAdd(Pot(c.base, 1)[i], Q(IF c.base.ess THEN 0 ELSE s - 1))]       \* second spin: one higher
(* site values of a combination of vectors *)
Mix(co, vecs) == [i \in Sites |-> ISum([k \in 1..Len(co) |-> co[k] * vecs[k][i]])]
X(r) == [k \in 1..Len(c.x[r]) |-> Mix(c.x[r][k], Phi(c.base, r, 1))]
Orb(f, s, r) == IF r > Len(c.comb[f][s]) THEN <<>> ELSE [k \in 1..Len(c.comb[f][s][r]) |-> Mix(c.comb[f][s][r][k], X(r))]
Img(a) == [i \in Sites |-> a[Mirror[i]]]
RECURSIVE Cat(_, _)
Cat(F(_), S) == IF S = {} THEN <<>> ELSE LET f == CHOOSE g \in S : \A h \in S : g <= h IN F(f) \o Cat(F, S \ {f})
Space(s, r) == Cat(LAMBDA f : LET o == Orb(f, s, r) IN IF c.base.sym THEN o \o [k \in 1..Len(o) |-> Img(o[k])] ELSE o, Frags)
(* potentials of the fragments: 1st and 2nd, 3rd and 4th cancel when weighted;
   in a spin symmetric ensemble the spins of a fragment are members like any other *)
Ix(f, s) == IF c.base.ess THEN f + (s - 1) * Len(c.comb) ELSE f
Partner(f) == IF f % 2 = 1 THEN f + 1 ELSE f - 1
QW(f, s, i) == QF(c.q[Ix(f, s)][i], 12)
Sgn(f) == IF f % 2 = 1 THEN 1 ELSE -1
Veff(f, s) == IF c.base.sym
  THEN [i \in Sites |-> QAdd(V(s)[i], QMul(QW(f, s, Mirror[i]), Q(c.slant[Ix(f, s)][i])))]
  ELSE [i \in Sites |-> QAdd(V(s)[i], QMul(QW(Partner(f), s, i), Q(Sgn(f) * c.slant[(Ix(f, s) + 1) \div 2][i])))]
Members(s) == IF c.base.ess THEN Frags \X Spins ELSE Frags \X {s}
RECURSIVE SumOver(_, _)
SumOver(F(_, _), S) == IF S = {} THEN Zero ELSE LET m == CHOOSE x \in S : TRUE IN QAdd(F(m[1], m[2]), SumOver(F, S \ {m}))
V0(s) == LET raw == [i \in Sites |-> SumOver(LAMBDA f, t : QMul(QW(f, t, i), Veff(f, t)[i]), Members(s))]
         IN IF c.base.sym THEN [i \in Sites |-> QAdd(raw[i], raw[Mirror[i]])] ELSE raw
(* levels: expectation values of the operator *)
Bra(a, t) == QSum([i \in Sites |-> QMul(Q(a[i]), t[i])])
Full(r, s) == Let1(<<Kin(c.base, r), V(s)>>, LAMBDA z : [i \in Sites |-> [j \in Sites |->
                 IF i = j THEN QAdd(z[1][i][j], QMul(Q(Wt[i]), z[2][i])) ELSE z[1][i][j]]])
Levels(r, s) == Let1(<<Full(r, s), X(r)>>, LAMBDA z : [k \in 1..Len(z[2]) |-> QDiv(Bra(z[2][k], Apply(z[1], z[2][k])), Q(IP(z[2][k], z[2][k])))])
Has(s, r) == \E f \in Frags : r <= Len(c.comb[f][s]) /\ c.comb[f][s][r] # <<>>
Scale(r) == (IF c.base.ess THEN 1 ELSE 2) * (IF r = 1 THEN 1 ELSE 2)
Held(s, r) == IF Has(s, r) THEN c.keep[r] ELSE 0
Init == c \in Systems /\ p = 1 /\ out = <<>>
Step == /\ p <= (IF c.base.ess THEN 1 ELSE c.base.pol)
        /\ out' = Append(out, [v0 |-> V0(p), rows |-> [r \in Rows(c.base) |->
               [held |-> Held(p, r), norm |-> Scale(r), all |-> IF Has(p, r) THEN Levels(r, p) ELSE <<>>,
                x |-> SubSeq(X(r), 1, Held(p, r)), e |-> SubSeq(Levels(r, p), 1, Held(p, r))]]])
        /\ p' = p + 1 /\ UNCHANGED c
Next == Step
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ properties *)
Fresh == p = 1
Weighted == Fresh => \A s \in Spins : V0(s) = V(s)
Unity == Fresh => \A s \in Spins : \A i \in Sites : Let1([j \in Sites |-> SumOver(LAMBDA f, t : QW(f, t, j), Members(s))],
   LAMBDA w : (IF c.base.sym THEN QAdd(w[i], w[Mirror[i]]) ELSE w[i]) = One)
(* the wanted states diagonalise the operator, and come in order *)
Ritz == Fresh => \A s \in Spins : \A r \in Rows(c.base) : Let1(<<Full(r, s), X(r)>>, LAMBDA z :
   \A k, l \in 1..Len(z[2]) : k = l \/ (Bra(z[2][k], Apply(z[1], z[2][l])) = Zero /\ IP(z[2][k], z[2][l]) = 0))
InOrder == Fresh => \A s \in Spins : \A r \in Rows(c.base) : Let1(Levels(r, s), LAMBDA e :
   /\ \A k \in 1..(Len(e) - 1) : QLeq(e[k], e[k + 1])
   \* what the molecule holds does not end within states of the same level
   /\ c.keep[r] \in 1..(Len(e) - 1) => QLess(e[c.keep[r]], e[c.keep[r] + 1]))
(* the fragments' orbitals, dependent or not, span the wanted states, no more *)
RECURSIVE Det(_)
Minor(a, k) == [i \in 1..(Len(a) - 1) |-> [j \in 1..(Len(a) - 1) |-> a[i + 1][IF j < k THEN j ELSE j + 1]]]
Det(a) == IF Len(a) = 0 THEN 1 ELSE ISum([k \in 1..Len(a) |-> (IF k % 2 = 1 THEN 1 ELSE -1) * a[1][k] * Det(Minor(a, k))])
Gram(b) == [i \in 1..Len(b) |-> [j \in 1..Len(b) |-> IP(b[i], b[j])]]
RECURSIVE QDet(_)
QDet(a) == IF Len(a) = 0 THEN One ELSE QSum([k \in 1..Len(a) |-> QMul(QMul(Q(IF k % 2 = 1 THEN 1 ELSE -1), a[1][k]), QDet(Minor(a, k)))])
(* overlap with the wanted states, those normalised once: no overflow *)
Over(b, x) == [i \in 1..Len(b) |-> [j \in 1..Len(x) |-> QF(IP(b[i], x[j]), IP(x[j], x[j]))]]
Spanning == Fresh => \A s \in Spins : \A r \in Rows(c.base) : Has(s, r) =>
   Let1(<<Space(s, r), X(r)>>, LAMBDA z :
      /\ \E I \in [1..Len(z[2]) -> 1..Len(z[1])] : (\A m \in 1..(Len(z[2]) - 1) : I[m] < I[m + 1])
                                                      /\ QDet(Over([m \in 1..Len(z[2]) |-> z[1][I[m]]], z[2])) # Zero
      /\ \A i \in 1..Len(z[1]) : \A k \in Sites :
            Q(z[1][i][k]) = QSum([j \in 1..Len(z[2]) |-> QMul(QF(IP(z[1][i], z[2][j]), IP(z[2][j], z[2][j])), Q(z[2][j][k]))]))
EnoughStates == Fresh => \A r \in Rows(c.base) : c.keep[r] <= Len(c.x[r])
Emit == p > (IF c.base.ess THEN 1 ELSE c.base.pol) => PrintT("@@" \o ToJson(
   [pol |-> c.base.pol, ess |-> c.base.ess, sym |-> c.base.sym, n4 |-> c.base.n4, wt |-> Wt,
    kin |-> [r \in Rows(c.base) |-> Kin(c.base, r)],
    frag |-> [f \in Frags |-> [s \in Spins |-> [rows |-> [r \in 1..Len(c.comb[f][s]) |-> Orb(f, s, r)], veff |-> Veff(f, s),
                                               q |-> [i \in Sites |-> QW(f, s, i)]]]],
    out |-> out]))

(* ------------------------------------------------------------- instances *)
Base(pol, ess, sym, phis, es, v) == Sy("many", pol, ess, sym, [r \in 1..Len(phis) |-> [s \in 1..pol |-> 8]], phis, es, v)
G(base, x, comb, q, slant, keep) == [base |-> base, x |-> x, comb |-> comb, q |-> q, slant |-> slant, keep |-> keep]
U(n, k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
Un(n) == [k \in 1..n |-> U(n, k)]
QA == <<7, 3, 9, 6, 2, 11>>     QB == [i \in 1..6 |-> 12 - QA[i]]
QS == <<9, 6, 3, 10, 6, 2>>                       \* with its mirror image, one
Q4 == << <<3, 1, 4, 2, 5, 3>>, <<2, 6, 2, 4, 1, 3>>, <<4, 2, 3, 5, 2, 1>>, <<3, 3, 3, 1, 4, 5>> >>
QS2 == << <<4, 2, 1, 6, 3, 1>>, <<5, 4, 2, 4, 3, 1>> >>
S11 == <<3, -2, 1, 0, 4, -5>>   S12 == <<-1, 2, 6, -3, 0, 2>>
SO == <<2, 0, -2, -5, 0, 5>>    SO2 == <<-3, 0, 3, 1, 0, -1>>    \* odd
B123 == <<B1, B2, B3>>
RowB == <<Q(-3), Q(-2), Q(1)>>  RowD == <<Q(-1), Q(0)>>
One1(pol) == Base(pol, FALSE, FALSE, <<B123>>, <<RowB>>, V1)
Two1(pol) == Base(pol, FALSE, FALSE, <<B123, <<D1, D2>> >>, <<RowB, RowD>>, V1)
Three1(pol) == Base(pol, FALSE, FALSE, <<B123, <<D1, D2>>, B123>>, <<RowB, RowD, <<Q(1), Q(2), Q(5)>> >>, V1)
Ess1 == Base(2, TRUE, FALSE, <<B123>>, <<RowB>>, V1)
Ess2 == Base(2, TRUE, FALSE, <<B123, <<D1, D2>> >>, <<RowB, RowD>>, V1)
EssSym == Base(2, TRUE, TRUE, << <<E1, E2>>, <<D1, E2>> >>, << <<Q(-2), Q(-1)>>, <<Q(-2), QF(1, 2)>> >>, VS)
Sym2(pol) == Base(pol, FALSE, TRUE, << <<E1, E2>> >>, << <<Q(-2), Q(-1)>> >>, VS)
Sym22(pol) == Base(pol, FALSE, TRUE, << <<E1, E2>>, <<D1, E2>> >>, << <<Q(-2), Q(-1)>>, <<Q(-2), QF(1, 2)>> >>, VS)
Rep(pol, x) == [s \in 1..pol |-> x]
(* the wanted states: eigenvectors, or sums of two *)
X2 == << <<3, 0, 1>>, <<0, 1, 0>> >>      X2b == << <<1, 0, 0>>, <<0, 2, 1>> >>
Pair2(pol, x, ca, cb) == G(One1(pol), <<x>>, << Rep(pol, << <<ca>> >>), Rep(pol, << <<cb>> >>) >>, <<QA, QB>>, <<S11>>, <<2>>)
SomeGuesses ==
  { Pair2(pol, x, <<2, 1>>, <<1, a>>) : pol \in {1, 2}, x \in {X2, X2b}, a \in {-1, 2} }
  \* three states from two and one orbitals
  \cup { G(One1(1), <<Un(3)>>, << << << << <<1, 2, 0>>, <<1, 0, 1>> >> >> >>, << << << <<1, 1, 2>> >> >> >> >>, <<QA, QB>>, <<S11>>, <<k>>) : k \in 1..3 }
  \cup { G(One1(1), <<Un(3)>>, << << << << <<1, 1, 2>> >> >> >>, << << << <<1, 2, 0>>, <<1, 0, 1>> >> >> >> >>, <<QA, QB>>, <<S11>>, <<3>>) }
  \* two angular momenta; only one fragment has the second, or they share it
  \cup { G(Two1(pol), <<X2, Un(1)>>, << Rep(pol, << << <<1, 1>> >>, << <<1>> >> >>), Rep(pol, << << <<1, -2>> >> >>) >>, <<QA, QB>>, <<S11>>, <<2, 1>>) : pol \in {1, 2} }
  \cup { G(Two1(pol), <<X2, Un(1)>>, << Rep(pol, << << <<1, -2>> >> >>), Rep(pol, << << <<1, 1>> >>, << <<1>> >> >>) >>, <<QA, QB>>, <<S11>>, <<2, 1>>) : pol \in {1, 2} }
  \cup { G(Two1(1), <<X2, Un(2)>>, << << << << <<1, 1>> >>, << <<1, 1>> >> >> >>, << << << <<1, -2>> >>, << <<2, -1>> >> >> >> >>, <<QA, QB>>, <<S12>>, <<k, l>>) : k \in 1..2, l \in 1..2 }
  \* a fragment that has the row, but holds nothing in it
  \cup { G(Two1(1), <<X2, Un(1)>>, << << << << <<1, 1>> >>, <<>> >> >>, << << << <<1, -2>> >>, << <<1>> >> >> >> >>, <<QA, QB>>, <<S11>>, <<2, 1>>),
         G(Two1(1), <<X2, Un(1)>>, << << << << <<1, 1>>, <<1, -2>> >>, << <<1>> >> >> >>, << << <<>>, <<>> >> >> >>, <<QA, QB>>, <<S11>>, <<2, 1>>),
         \* spin up on one, spin down on the other
         G(One1(2), <<Un(1)>>, << << << << <<2>> >> >>, << <<>> >> >>, << << <<>> >>, << << <<3>> >> >> >> >>, <<QA, QB>>, <<S11>>, <<1>>),
         G(One1(2), <<X2>>, << << << << <<2, 1>>, <<1, 1>> >> >>, << <<>> >> >>, << << <<>> >>, << << <<3, 1>>, <<1, -1>> >> >> >> >>, <<QA, QB>>, <<S11>>, <<2>>) }
  \* three angular momenta
  \cup { G(Three1(pol), <<X2, Un(2), <<U(3, 1), U(3, 2)>> >>,
           << Rep(pol, << << <<1, 1>> >>, << <<1, 1>> >>, << <<1, 2>> >> >>), Rep(pol, << << <<1, -2>> >>, << <<2, -1>> >>, << <<2, 1>> >> >>) >>, <<QA, QB>>, <<S12>>, <<2, 1, 1>>) : pol \in {1, 2} }
  \* homonuclear
  \cup { G(Sym2(pol), <<Un(2)>>, << Rep(pol, << << <<a, 1>> >> >>) >>, <<QS>>, <<SO>>, <<k>>) : pol \in {1, 2}, a \in {1, 3}, k \in 1..2 }
  \cup { G(Sym22(pol), <<Un(2), Un(2)>>, << Rep(pol, << << <<2, 1>> >>, << <<1, -1>> >> >>) >>, <<QS>>, <<SO>>, <<k, l>>) : pol \in {1, 2}, k \in 1..2, l \in 1..2 }
  \* ensembles
  \cup { G(One1(pol), <<Un(3)>>, << Rep(pol, << << <<1, 2, 0>> >> >>), Rep(pol, << << <<1, 0, 1>> >> >>), Rep(pol, << << <<1, 1, 2>> >> >>), Rep(pol, << <<>> >>) >>,
             Q4, <<S11, S12>>, <<k>>) : pol \in {1, 2}, k \in 1..3 }
  \cup { G(Two1(pol), <<Un(3), Un(2)>>,
             << Rep(pol, << << <<1, 2, 0>> >> >>), Rep(pol, << << <<1, 0, 1>> >> >>), Rep(pol, << << <<1, 1, 2>> >>, << <<1, 1>> >> >>), Rep(pol, << <<>>, << <<1, -2>> >> >>) >>,
             Q4, <<S11, S12>>, <<k, l>>) : pol \in {1, 2}, k \in 1..3, l \in 1..2 }
  \cup { G(Base(1, FALSE, TRUE, << <<E1, E2>>, <<D1, E2>> >>, << <<Q(-2), Q(-1)>>, <<Q(-2), QF(1, 2)>> >>, VS), <<Un(2), Un(2)>>,
             << << << << <<2, 1>> >> >> >>, << << <<>>, << <<1, 1>> >> >> >> >>, QS2, <<SO, SO2>>, <<2, k>>) : k \in 1..2 }
  \* spin symmetric ensembles
  \cup { G(Ess1, <<X2>>, << Rep(2, << << <<2, 1>> >> >>), Rep(2, << << <<1, a>> >> >>) >>, Q4, <<S11, S12>>, <<2>>) : a \in {-1, 2} }
  \cup { G(Ess2, <<X2, Un(1)>>, << Rep(2, << << <<2, 1>> >>, << <<1>> >> >>), Rep(2, << << <<1, 2>> >> >>) >>, Q4, <<S11, S12>>, <<k, 1>>) : k \in 1..2 }
  \cup { G(EssSym, <<Un(2), Un(2)>>, << Rep(2, << << <<2, 1>> >>, << <<1, -1>> >> >>) >>, QS2, <<SO, SO2>>, <<k, l>>) : k \in 1..2, l \in 1..2 }

  \* orbitals the fragments have in common
  \cup { G(One1(pol), <<Un(k)>>, << Rep(pol, << <<U(k, 1)>> >>), Rep(pol, << <<U(k, 1), U(k, k)>> >>) >>, <<QA, QB>>, <<S11>>, <<k>>) : pol \in {1, 2}, k \in 1..2 }
  \cup { G(Two1(1), <<Un(2), Un(2)>>,
             << << << << <<1, 2>> >> >> >>, << << << <<1, 2>> >> >> >>, << << << <<1, 2>>, <<3, 1>> >>, << <<1, 1>> >> >> >>, << << << <<3, 1>> >>, << <<1, -2>>, <<1, 1>> >> >> >> >>,
             Q4, <<S11, S12>>, <<k, l>>) : k \in 1..2, l \in 1..2 }
  \cup { G(Base(1, FALSE, TRUE, << <<E1, E2>> >>, << <<Q(-2), Q(-1)>> >>, VS), <<Un(1)>>, << << << << <<1>> >> >> >> >>, <<QS>>, <<SO>>, <<1>>) }
  \* states of the same level
  \cup { G(Base(pol, FALSE, FALSE, <<B123, <<D1, D2>> >>, << <<Q(-3), Q(-1), Q(-1)>>, <<Q(-1), Q(-1)>> >>, V1), <<Un(3), Un(2)>>,
             << Rep(pol, << << <<1, a, 0>>, <<1, 0, 1>> >>, << <<1, 1>> >> >>), Rep(pol, << << <<1, 1, 2>> >>, << <<1, b>> >> >>) >>, <<QA, QB>>, <<S11>>, <<k, 2>>) :
             pol \in {1, 2}, a \in {1, 2}, b \in {0, 3}, k \in {1, 3} }
  \* a molecule that holds nothing in a row, or has no such row
  \cup { G(Two1(1), <<X2, Un(2)>>, << << << << <<1, 1>> >>, << <<1, 1>> >> >> >>, << << << <<1, -2>> >>, << <<2, -1>> >> >> >> >>, <<QA, QB>>, <<S12>>, <<k, 0>>) : k \in 1..2 }
Small == {-1, 0, 2}
MoreGuesses == SomeGuesses
  \cup { Pair2(pol, x, <<a, 1>>, <<1, b>>) : pol \in {1, 2}, x \in {X2, X2b, Un(2)}, a \in {2, 3}, b \in {-1, 0, 2} }
  \cup { G(One1(1), <<Un(3)>>, << << << << <<1, a, b>>, <<1, 0, 1>> >> >> >>, << << << <<1, 1, 3>> >> >> >> >>, <<QA, QB>>, <<S12>>, <<k>>) :
            a \in Small, b \in {0, 2, 3}, k \in {2, 3} }
  \cup { G(Two1(pol), <<X2, Un(2)>>, << Rep(pol, << << <<1, a>> >>, << <<1, 1>> >> >>), Rep(pol, << << <<1, -2>> >>, << <<2, b>> >> >>) >>, <<QB, QA>>, <<S12>>, <<k, l>>) :
            pol \in {1, 2}, a \in {-1, 3}, b \in {-1, 0}, k \in 1..2, l \in 1..2 }
  \cup { G(Sym22(pol), <<Un(2), Un(2)>>, << Rep(pol, << << <<a, 1>> >>, << <<1, b>> >> >>) >>, <<QS>>, <<SO2>>, <<k, l>>) :
            pol \in {1, 2}, a \in {1, -2}, b \in {-1, 3}, k \in 1..2, l \in 1..2 }
=============================================================================
