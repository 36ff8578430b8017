--------------------------- MODULE StateFunction ---------------------------
(***************************************************************************)
(* C34.  The energy of a converged calculation is a function of what is     *)
(* calculated: the charges of the nuclei, the fields acting on either spin, *)
(* the electrons in every row of the occupation matrix (of every fragment). *)
(* Its slopes are other results of the same calculation:                    *)
(*   along the electrons of a row and spin   their highest occupied level   *)
(*     (Janak; times the fragment's weight in the ensemble),                *)
(*   along the charge of a nucleus   the density's potential energy in a    *)
(*     unit charge there, plus the other nucleus over the distance,         *)
(*   along a field   the dipole of the density of that spin                 *)
(*     (Hellmann and Feynman).                                              *)
(* The state is a point p of this space reached by steps; a step's change   *)
(* of energy is the integral of the slope, by Simpson's rule at its ends    *)
(* and middle.                                                              *)
(***************************************************************************)
EXTENDS Rat, Json
CONSTANTS Names, Steps
VARIABLES sys, p, edge, sum, steps
vars == <<sys, p, edge, sum, steps>>

(* a system: [name, kind, int, xc, sym, hxc, pol, rows, nu (eighths of the   *)
(* upper members, <<>> without ensemble), a (half distance), start, moves]   *)
(* a point: charges A, B; fields on spins 1, 2; then, per fragment, row and  *)
(* spin, the electrons                                                      *)
Frags(y) == IF y.kind = "ks" THEN 1 ELSE IF y.nu = <<>> THEN 2 ELSE 4
At(y, k, m, j) == 4 + (k - 1) * y.rows * y.pol + m * y.pol + j
Cap(y, m) == (IF y.pol = 1 THEN 2 ELSE 1) * (IF m = 0 THEN 1 ELSE 2)
Used(y, m, q) == LET d == QDiv(q, Q(Cap(y, m))) IN (d[1] + d[2] - 1) \div d[2]
Weight(y, k) == IF Frags(y) # 4 THEN One
                ELSE LET u == QF(y.nu[IF k <= 2 THEN 1 ELSE 2], 8) IN IF k % 2 = 1 THEN QSub(One, u) ELSE u
Places(y) == {<<k, m, j>> \in (1..Frags(y)) \X (0..y.rows - 1) \X (1..y.pol) : TRUE}
PlaceOf(y, i) == CHOOSE x \in Places(y) : At(y, x[1], x[2], x[3]) = i
(* moves: [dir: sequence of parameter numbers, h] *)
Along(q, mv, t) == TLCEval([i \in 1..Len(q) |-> IF \E x \in 1..Len(mv.dir) : mv.dir[x] = i THEN QAdd(q[i], QMul(t, mv.h)) ELSE q[i]])
Nodes(q, mv) == <<q, Along(q, mv, QF(1, 2)), Along(q, mv, One)>>
Simpson == <<QF(1, 6), QF(2, 3), QF(1, 6)>>
Allowed(y, q, mv) == \A x \in 1..Len(mv.dir) : LET i == mv.dir[x] IN
   \* charges and electrons stay positive, the highest level the same one
   /\ (i <= 2 \/ i > 4 => \A n \in 1..3 : QLess(Zero, Nodes(q, mv)[n][i]))
   /\ (i > 4 => LET m == PlaceOf(y, i)[2] IN
                 \A n \in 1..3 : Used(y, m, Nodes(q, mv)[n][i]) = Used(y, m, Nodes(q, mv)[2][i]))
(* the slope along parameter i at the point q *)
Slope(y, q, i) ==
  IF i <= 2 THEN [what |-> "nucleus", which |-> <<i>>, times |-> One, plus |-> QDiv(q[3 - i], QMul(Q(2), y.a))]
  ELSE IF i <= 4 THEN [what |-> "field", which |-> <<i - 2>>, times |-> One, plus |-> Zero]
  ELSE LET x == PlaceOf(y, i) IN
       [what |-> "level", which |-> x \o <<Used(y, x[2], q[i])>>, times |-> Weight(y, x[1]), plus |-> Zero]
Nmo(y, q, k) == [m \in 1..y.rows |-> [j \in 1..y.pol |-> Used(y, m - 1, q[At(y, k, m - 1, j)])]]
Filling(y, q, k) == [m \in 1..y.rows |-> [j \in 1..y.pol |-> q[At(y, k, m - 1, j)]]]
Node(y, x, mv, n) ==
  [weight |-> QMul(Simpson[n], mv.h), za |-> x[1], zb |-> x[2], fields |-> <<x[3], x[4]>>,
   nmo |-> [k \in 1..Frags(y) |-> Nmo(y, x, k)], n |-> [k \in 1..Frags(y) |-> Filling(y, x, k)],
   slopes |-> [i \in 1..Len(mv.dir) |-> Slope(y, x, mv.dir[i])]]

(* a function with known slopes, of third degree, to hold the rules against *)
Pairwise(i, j) == IF i < j THEN i - 2 * j ELSE j - 2 * i
Toy(q) == QAdd(QSum([i \in 1..Len(q) |-> QMul(Q(i), QPow(q[i], 3))]),
  QSum([i \in 1..Len(q) |-> QSum([j \in 1..i |-> IF i = j THEN Zero ELSE QMul(Q(Pairwise(i, j)), QMul(q[i], q[j]))])]))
ToySlope(q, i) == QAdd(QMul(Q(3 * i), QMul(q[i], q[i])),
  QSum([j \in 1..Len(q) |-> IF i = j THEN Zero ELSE QMul(Q(Pairwise(i, j)), q[j])]))
ToyEdge(q, mv) == QSum([n \in 1..3 |-> QMul(QMul(Simpson[n], mv.h),
  QSum([i \in 1..Len(mv.dir) |-> ToySlope(Nodes(q, mv)[n], mv.dir[i])]))])

(* ------------------------------------------------------------- systems *)
KS(nm, int, xc, sym, pol, rows, start, moves) ==
  [name |-> nm, kind |-> "ks", int |-> int, xc |-> xc, sym |-> sym, hxc |-> "", pol |-> pol, rows |-> rows, nu |-> <<>>,
   ess |-> FALSE, a |-> QF(7, 10), start |-> start, moves |-> moves]
PT(nm, hxc, pol, nu, ess, start, moves) ==
  [name |-> nm, kind |-> "part", int |-> "dft", xc |-> "lda", sym |-> FALSE, hxc |-> hxc, pol |-> pol, rows |-> 1, nu |-> nu,
   ess |-> ess, a |-> QF(9, 10), start |-> start, moves |-> moves]
M(d, n, k) == [dir |-> d, h |-> QF(n, k)]
D(n) == QF(n, 10)
Charges == {M(<<1>>, 2, 5), M(<<2>>, 2, 5)}
NearCharges == {M(<<1>>, 1, 5), M(<<2>>, 1, 5)}
Both == {M(<<1, 2>>, 2, 5)}
F1 == {M(<<3>>, 1, 10)}
F12 == {M(<<3, 4>>, 1, 10)}
Mag == {M(<<3>>, 1, 10), M(<<4>>, -1, 10)}
El(i) == {M(<<i>>, 2, 5)}
All == {
  KS("HeH", "dft", "lda", FALSE, 1, 1, <<D(18), D(10), Zero, Zero, D(14)>>, Charges \cup F1 \cup El(5)),
  KS("HeH spins", "dft", "lda", FALSE, 2, 1, <<D(18), D(10), Zero, Zero, D(6), D(3)>>, Charges \cup Mag \cup El(5) \cup El(6)),
  KS("HeH gga", "dft", "gga", FALSE, 1, 1, <<D(18), D(10), Zero, Zero, D(14)>>, Charges \cup F1 \cup El(5)),
  KS("HeH gga spins", "dft", "gga", FALSE, 2, 1, <<D(18), D(10), Zero, Zero, D(6), D(3)>>, Charges \cup Mag \cup El(5) \cup El(6)),
  KS("Be2 pi", "dft", "lda", FALSE, 1, 2, <<D(30), D(20), Zero, Zero, D(24), D(6)>>, Charges \cup El(5) \cup El(6)),
  KS("Be2 pi spins", "dft", "lda", FALSE, 2, 2, <<D(30), D(20), Zero, Zero, D(12), D(8), D(6), D(2)>>, Charges \cup El(5) \cup El(6) \cup El(7) \cup El(8)),
  KS("H2", "dft", "lda", TRUE, 1, 1, <<D(10), D(10), Zero, Zero, D(14)>>, Both \cup El(5)),
  KS("H2 spins", "dft", "lda", TRUE, 2, 1, <<D(10), D(10), Zero, Zero, D(6), D(3)>>, Both \cup El(5) \cup El(6)),
  KS("LiHe free", "ni", "lda", FALSE, 2, 2, <<D(30), D(20), Zero, Zero, D(12), D(8), D(6), D(2)>>, Charges \cup Mag \cup El(5) \cup El(8)),
  PT("exact", "exact", 1, <<>>, FALSE, <<D(13), D(11), Zero, Zero, D(12), D(6)>>, NearCharges \cup El(5) \cup El(6)),
  PT("hartree", "hartree", 1, <<>>, FALSE, <<D(13), D(11), Zero, Zero, D(12), D(6)>>, NearCharges \cup El(5) \cup El(6)),
  PT("overlap_xc", "overlap_xc", 1, <<>>, FALSE, <<D(13), D(11), Zero, Zero, D(12), D(6)>>, NearCharges \cup El(5) \cup El(6)),
  PT("overlap_hxc", "overlap_hxc", 1, <<>>, FALSE, <<D(13), D(11), Zero, Zero, D(12), D(6)>>, NearCharges \cup El(5) \cup El(6)),
  PT("ensemble", "exact", 1, <<2, 6>>, FALSE, <<D(13), D(11), Zero, Zero, D(6), D(12), D(4), D(12)>>, NearCharges \cup El(5) \cup El(6) \cup El(7) \cup El(8)),
  PT("ensemble overlap", "overlap_hxc", 1, <<2, 6>>, FALSE, <<D(13), D(11), Zero, Zero, D(6), D(12), D(4), D(12)>>, El(5) \cup El(6) \cup El(7) \cup El(8)),
  PT("spin ensemble", "overlap_hxc", 2, <<>>, TRUE, <<D(13), D(11), Zero, Zero, D(6), D(2), D(6), D(2)>>, NearCharges \cup El(5) \cup El(7)) }
Systems == {y \in All : y.name \in Names}

Init == /\ sys \in Systems /\ p = sys.start /\ edge = <<>> /\ sum = Zero /\ steps = 0
Step(mv) == /\ steps < Steps /\ Allowed(sys, p, mv)
            /\ p' = Along(p, mv, One)
            /\ edge' = <<p, mv>>
            /\ sum' = QAdd(sum, ToyEdge(p, mv))
            /\ steps' = steps + 1 /\ UNCHANGED sys
Next == \E mv \in sys.moves : Step(mv)
Spec == Init /\ [][Next]_vars

(* whatever the path, the slopes add up to the change of the function *)
StateFunction == sum = QSub(Toy(p), Toy(sys.start))
Weights == QSum(Simpson) = One /\ (Frags(sys) = 4 => \A k \in {1, 3} : QAdd(Weight(sys, k), Weight(sys, k + 1)) = One)
Emit == edge # <<>> => PrintT("@@" \o ToJson(
  [sys |-> [sys EXCEPT !.moves = {}], along |-> edge[2].dir, nu |-> sys.nu,
   nodes |-> [n \in 1..3 |-> Node(sys, Nodes(edge[1], edge[2])[n], edge[2], n)]]))
=============================================================================
