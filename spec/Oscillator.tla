----------------------------- MODULE Oscillator -----------------------------
(***************************************************************************)
(* C33.  Electrons in an external harmonic field, without nuclei and        *)
(* without interaction: 1/2 wz^2 (z - c)^2 + 1/2 wr^2 rho^2 + F z.          *)
(* State (k, l) of the angular momentum m lies at                           *)
(*   wr (2k + m + 1) + wz (l + 1/2) + off;                                  *)
(* a uniform field only moves the well (c) and its bottom (off).  The state *)
(* is a well being filled: fields are switched on, electrons are added.     *)
(* Answers, all rational: the levels in order; half of the energy above the *)
(* bottom is kinetic; densities (polynomials times Gaussians), their centre *)
(* and spreads.  The response to a uniform field moves the density, the     *)
(* response to a stiffer well rescales it.                                  *)
(***************************************************************************)
EXTENDS Rat, Json

DefWells == {<<Q(1), Q(1)>>, <<QF(3, 2), Q(1)>>}
DefCentres == {Zero, Q(1)}
DefFields == {QF(1, 2)}
DefChunks == {Q(1), QF(3, 2), Q(4)}
CONSTANTS Wells,      \* pairs <<wz, wr>>
  Centres, Fields, MaxFields,
  Rows, Chunks, Adds, Depth, Grids, Pols, Syms, Extras,
  Respond     \* whether the response is asked for

VARIABLES wz, wr, start, c, off, fields, order, sym, pol, fill, adds, extra, grid
vars == <<wz, wr, start, c, off, fields, order, sym, pol, fill, adds, extra, grid>>

(* ------------------------------------------------------------- levels *)
KMax == 6
LMax == 9
Osc(z, r, s) == QAdd(QMul(r, Q(2 * s[1])), QMul(z, Q(s[2])))          \* above the lowest
RECURSIVE Sorted(_, _, _, _)
Sorted(z, r, S, n) == IF n = 0 THEN <<>> ELSE
  LET s == CHOOSE s \in S : \A t \in S : QLess(Osc(z, r, s), Osc(z, r, t)) \/ (Osc(z, r, s) = Osc(z, r, t) /\ s[1] <= t[1])
  IN <<s>> \o Sorted(z, r, S \ {s}, n - 1)
Order(z, r) == Sorted(z, r, (0..KMax) \X (0..LMax), Depth + 1)
Above(m, i) == QAdd(Osc(wz, wr, order[i]), QAdd(QMul(wr, Q(m + 1)), QMul(wz, QF(1, 2))))
Level(m, i) == QAdd(Above(m, i), off)

(* ------------------------------------------------------------ filling *)
Cap(m) == (IF pol = 1 THEN 2 ELSE 1) * (IF m = 0 THEN 1 ELSE 2)
Used(q, m) == LET d == QDiv(q, Q(Cap(m))) IN (d[1] + d[2] - 1) \div d[2]
Occ(q, m, i) == LET f == Q(Cap(m)) left == QSub(q, Q(Cap(m) * (i - 1))) IN
                IF QLeq(f, left) THEN f ELSE IF left[1] > 0 THEN left ELSE Zero
N(m, j) == fill[m + 1][j]
Nmo(m, j) == IF extra /\ N(m, j) # Zero THEN Used(N(m, j), m) + 1 ELSE Used(N(m, j), m)
All(F(_, _)) == QSum([i \in 1..Rows |-> QSum([j \in 1..pol |-> F(i - 1, j)])])
Over(F(_, _, _)) == All(LAMBDA m, j : QSum([i \in 1..Used(N(m, j), m) |-> F(m, j, i)]))
Electrons == All(N)
RowE(m, j) == QSum([i \in 1..Used(N(m, j), m) |-> QMul(Occ(N(m, j), m, i), Level(m, i))])
EAbove == Over(LAMBDA m, j, i : QMul(Occ(N(m, j), m, i), Above(m, i)))
EAll == All(RowE)
Top == LET us == {Level(k[1], Used(N(k[1], k[2]), k[1])) : k \in {k \in (0..Rows - 1) \X (1..pol) : N(k[1], k[2]) # Zero}} IN
       CHOOSE q \in us : \A p \in us : QLeq(p, q)
(* no occupied level is degenerate (combinations of degenerate ones are arbitrary) *)
Simple == \A m \in 0..Rows - 1 : \A j \in 1..pol : \A i \in 1..Used(N(m, j), m) : \A k \in 1..Depth + 1 :
           k # i => Osc(wz, wr, order[i]) # Osc(wz, wr, order[k])
Z2 == Over(LAMBDA m, j, i : QMul(Occ(N(m, j), m, i), QDiv(QF(2 * order[i][2] + 1, 2), wz)))
R2 == Over(LAMBDA m, j, i : QMul(Occ(N(m, j), m, i), QDiv(Q(2 * order[i][1] + m + 1), wr)))
(* one orbital of an isotropic well *)
Lowest == wz = wr /\ \A m \in 0..Rows - 1 : \A j \in 1..pol : Used(N(m, j), m) <= (IF m = 0 THEN 1 ELSE 0)

(* -------------------------------------------------------- polynomials *)
RECURSIVE Hermite(_)
Hermite(l) == IF l = 0 THEN <<1>> ELSE IF l = 1 THEN <<0, 2>> ELSE
  LET a == TLCEval(Hermite(l - 1)) b == TLCEval(Hermite(l - 2)) IN
  [i \in 1..l + 1 |-> (IF i > 1 THEN 2 * a[i - 1] ELSE 0) - (IF i <= l - 1 THEN 2 * (l - 1) * b[i] ELSE 0)]
Choose2(n, k) == Fact(n) \div (Fact(k) * Fact(n - k))
Laguerre(k, m) == [i \in 1..k + 1 |-> QF((IF i % 2 = 1 THEN 1 ELSE -1) * Choose2(k + m, k + 1 - i), Fact(i - 1))]
RECURSIVE Two(_)
Two(n) == IF n = 0 THEN 1 ELSE 2 * Two(n - 1)
Factor(m, s) == QF(Fact(s[1]), Fact(s[1] + m) * Two(s[2]) * Fact(s[2]))

(* -------------------------------------------------------------- steps *)
Init == /\ \E w \in Wells : wz = w[1] /\ wr = w[2] /\ order = Order(w[1], w[2])
        /\ start \in Centres /\ c = start /\ off = Zero /\ fields = <<>>
        /\ sym \in Syms /\ pol \in Pols /\ extra \in Extras /\ grid \in Grids
        /\ fill = [i \in 1..Rows |-> [j \in 1..pol |-> Zero]] /\ adds = 0
(* F z is switched on: the well moves by -F/wz^2, its bottom from off to off + F c - F^2 / 2 wz^2 *)
Field(f) == /\ adds = 0 /\ Len(fields) < MaxFields /\ ~sym
            /\ fields' = Append(fields, f)
            /\ c' = QSub(c, QDiv(f, QMul(wz, wz)))
            /\ off' = QAdd(off, QSub(QMul(f, c), QDiv(QMul(f, f), QMul(Q(2), QMul(wz, wz)))))
            /\ UNCHANGED <<wz, wr, start, order, sym, pol, fill, adds, extra, grid>>
Later(m, j) == \A i \in 0..Rows - 1 : \A s \in 1..pol : (i > m \/ (i = m /\ s > j)) => N(i, s) = Zero
Add(m, j, q) == /\ adds < Adds /\ Later(m, j) /\ (sym => c = Zero)
                /\ Used(QAdd(N(m, j), q), m) + (IF extra THEN 1 ELSE 0) <= Depth
                /\ fill' = [fill EXCEPT ![m + 1][j] = QAdd(@, q)]
                /\ adds' = adds + 1 /\ UNCHANGED <<wz, wr, start, c, off, fields, order, sym, pol, extra, grid>>
Next == (\E f \in Fields : Field(f)) \/ \E m \in 0..Rows - 1 : \E j \in 1..pol : \E q \in Chunks : Add(m, j, q)
Spec == Init /\ [][Next]_vars

(* --------------------------------------------------------------- laws *)
RECURSIVE Odd(_)
Odd(i) == IF i <= 0 THEN 1 ELSE (2 * i - 1) * Odd(i - 1)      \* (2i - 1)!!
(* integral of x^2p H_l^2 exp(-x^2) / sqrt(pi);  of s^(m + p) L^2 exp(-s) *)
HInt(l, p) == LET h == Hermite(l) IN QSum([i \in 1..l + 1 |-> QSum([j \in 1..l + 1 |->
   IF (i + j) % 2 = 1 THEN Zero ELSE QMul(Q(h[i] * h[j]), QF(Odd(((i + j - 2) \div 2) + p), Two(((i + j - 2) \div 2) + p)))])])
LInt(k, m, p) == LET g == Laguerre(k, m) IN QSum([i \in 1..k + 1 |-> QSum([j \in 1..k + 1 |->
   QMul(QMul(g[i], g[j]), Q(Fact(i + j - 2 + m + p)))])])
Normal == /\ \A l \in 0..4 : /\ HInt(l, 0) = Q(Two(l) * Fact(l))
                            /\ HInt(l, 1) = QMul(QF(2 * l + 1, 2), HInt(l, 0))
          /\ \A k \in 0..2 : \A m \in 0..2 :
                /\ LInt(k, m, 0) = QF(Fact(k + m), Fact(k))
                /\ LInt(k, m, 1) = QMul(Q(2 * k + m + 1), LInt(k, m, 0))
(* an isotropic well: (n + 1)(n + 2)/2 states n above the lowest, over both signs of m *)
Shells == \A n \in 0..4 :
  QSum([i \in 1..n + 1 |-> Q((IF i = 1 THEN 1 ELSE 2) * LET m == i - 1 IN
    ISum([k \in 1..n + 1 |-> ISum([l \in 1..n + 1 |-> IF 2 * (k - 1) + m + l - 1 = n THEN 1 ELSE 0])]))]) = QF((n + 1) * (n + 2), 2)
ASSUME Normal /\ Shells

Well(z, at) == QMul(QMul(wz, wz), QDiv(QMul(QSub(z, at), QSub(z, at)), Q(2)))
Moved == \A z \in {Zero, One, QF(-3, 2)} :
  QAdd(Well(z, start), QMul(QSum(fields), z)) = QAdd(Well(z, c), off)
Ordered == \A i \in 1..Depth : QLeq(Osc(wz, wr, order[i]), Osc(wz, wr, order[i + 1]))
(* the potential energy above the bottom, from the spreads, is the other half *)
Virial == adds > 0 =>
  QDiv(QAdd(QMul(QMul(wz, wz), Z2), QMul(QMul(wr, wr), R2)), Q(2)) = QDiv(EAbove, Q(2))

(* --------------------------------------------------- what is compared *)
Mat(F(_, _)) == [i \in 1..Rows |-> [j \in 1..pol |-> F(i - 1, j)]]
(* the solver looks for levels close to zero: those above it *)
Emit == adds > 0 /\ QLess(Zero, Level(0, 1)) =>
  PrintT("@@" \o ToJson([wz |-> wz, wr |-> wr, start |-> start, c |-> c, off |-> off, fields |-> QSum(fields), sym |-> sym, pol |-> pol,
     grid |-> grid, n |-> Mat(N), nmo |-> Mat(Nmo), el |-> Electrons,
     levels |-> Mat(LAMBDA m, j : [i \in 1..Nmo(m, j) |-> Level(m, i)]),
     E |-> EAll, above |-> EAbove, Eks |-> [j \in 1..pol |-> QSum([i \in 1..Rows |-> RowE(i - 1, j)])], u |-> Top,
     simple |-> Simple, respond |-> Respond /\ Simple, lowest |-> Lowest, spread |-> Z2, width |-> R2,
     terms |-> IF ~Simple THEN <<>> ELSE Mat(LAMBDA m, j : [i \in 1..Used(N(m, j), m) |->
        [w |-> QMul(Occ(N(m, j), m, i), Factor(m, order[i])), h |-> Hermite(order[i][2]), g |-> Laguerre(order[i][1], m)]])]))
=============================================================================
