------------------------------- MODULE Atoms -------------------------------
(***************************************************************************)
(* C32.  Systems whose exact answer is known.  A nucleus of charge z at one *)
(* focus of the grid, electrons that do not interact: level n = 1, 2, ...   *)
(* of the angular momentum m lies at -z^2 / 2 n^2 and occurs n - m times.   *)
(* The state is an atom being filled: electrons are added to the lowest     *)
(* orbitals of an angular momentum and a spin, half ones included, and      *)
(* everything measurable follows in rationals:                              *)
(*   energies           by counting                                         *)
(*   Ts = -E, Enuc = 2E by the virial theorem                               *)
(*   the density        of circular orbitals (n = m + 1):                   *)
(*                      N c/pi z^3 (z r)^(2m) sin^(2m) exp(-2 z r / n)      *)
(*   its moments        <r>, <r^2>, <z>, <z^2>                              *)
(*   Hartree            of the lowest orbital: 5 z N^2 / 16, and            *)
(*                      N (1/r - (z + 1/r) exp(-2 z r))                     *)
(* Two atoms that do not see each other are a partition of isolated         *)
(* fragments.  One electron and two equal nuclei at distance 2/z: the       *)
(* levels are z^2 times those of H2+ at two bohr, from the literature.      *)
(***************************************************************************)
EXTENDS Rat, Json

DefCharges == {QF(1, 1), Q(3)}
DefChunks == {Q(1), QF(3, 2), Q(4)}
CONSTANTS Charges, Rows, Chunks, Adds, Grids, Pols, Kinds, Extras,
  Deep,       \* the highest shell
  Least       \* the lowest angular momentum that holds electrons

VARIABLES kind, z, focus, pol, fill, adds, extra, grid
vars == <<kind, z, focus, pol, fill, adds, extra, grid>>

Cap(m) == (IF pol = 1 THEN 2 ELSE 1) * (IF m = 0 THEN 1 ELSE 2)
(* the k-th level of angular momentum m belongs to shell n *)
RECURSIVE ShellOf(_, _, _)
ShellOf(m, k, n) == IF k <= n - m THEN n ELSE ShellOf(m, k - (n - m), n + 1)
Shell(m, k) == ShellOf(m, k, m + 1)
AtomLevel(m, k) == QDiv(QMul(QF(-1, 2), QMul(z, z)), LET n == Shell(m, k) IN Q(n * n))
(* H2+ at two bohr: Madsen and Peek, in units of 1e-7 hartree *)
H2p == << <<11026342, 6675344, 3608649, 2554132, 2357776>>, <<4287718, 2266996, 2008648>>, <<2127327, 1249625>> >>
Ion == kind \in {"ion", "ion sym"}
Level(m, k) == IF Ion THEN QMul(QMul(z, z), QF(-H2p[m + 1][k], 10000000)) ELSE AtomLevel(m, k)
(* orbitals that hold electrons *)
Used(q, m) == LET d == QDiv(q, Q(Cap(m))) IN (d[1] + d[2] - 1) \div d[2]
Occ(q, m, k) == LET c == Q(Cap(m)) left == QSub(q, Q(Cap(m) * (k - 1))) IN IF QLeq(c, left) THEN c ELSE left
N(m, j) == fill[m + 1][j]
Nmo(m, j) == IF extra /\ N(m, j) # Zero THEN Used(N(m, j), m) + 1 ELSE Used(N(m, j), m)
RowE(m, j) == QSum([k \in 1..Used(N(m, j), m) |-> QMul(Occ(N(m, j), m, k), Level(m, k))])
All(F(_, _)) == QSum([i \in 1..Rows |-> QSum([j \in 1..pol |-> F(i - 1, j)])])
E == All(RowE)
Electrons == All(N)
Top == LET ks == {<<m, j>> \in (0..Rows - 1) \X (1..pol) : N(m, j) # Zero}
           u(k) == Level(k[1], Used(N(k[1], k[2]), k[1])) IN
       CHOOSE q \in {u(k) : k \in ks} : \A k \in ks : QLeq(u(k), q)
MaxShell == IF Ion THEN 3 ELSE LET ks == {<<m, j>> \in (0..Rows - 1) \X (1..pol) : Nmo(m, j) > 0}
                s(k) == Shell(k[1], Nmo(k[1], k[2])) IN
            CHOOSE n \in {s(k) : k \in ks} : \A k \in ks : s(k) <= n
(* only the lowest orbital of each angular momentum holds electrons *)
(* (beyond m = 3 the densities do not fit into TLC's integers) *)
Circular == ~Ion /\ \A m \in 0..Rows - 1 : \A j \in 1..pol : Used(N(m, j), m) <= (IF m > 3 THEN 0 ELSE 1)
Lowest == Circular /\ \A m \in 1..Rows - 1 : \A j \in 1..pol : N(m, j) = Zero

RECURSIVE Pow(_, _)
Pow(q, k) == IF k = 0 THEN One ELSE QMul(q, Pow(q, k - 1))
(* |R|^2 |Y|^2 of the circular orbital n = m + 1, in units of z^3 / pi *)
Angular(m) == <<QF(1, 4), QF(3, 8), QF(15, 32), QF(35, 64), Zero>>[m + 1]
Coef(m) == IF m > 3 THEN Zero ELSE LET n == m + 1 IN QMul(QDiv(Pow(QF(2, n), 2 * n + 1), Q(Fact(2 * n))), Angular(m))
MomentR(m) == LET n == m + 1 IN QDiv(Q(n * (2 * n + 1)), QMul(Q(2), z))
MomentR2(m) == LET n == m + 1 IN QDiv(Q(n * n * (n + 1) * (2 * n + 1)), QMul(Q(2), QMul(z, z)))
MomentZ2(m) == QDiv(MomentR2(m), Q(2 * m + 3))
Weighted(F(_)) == All(LAMBDA m, j : QMul(N(m, j), F(m)))

Init == /\ kind \in Kinds /\ z \in Charges /\ focus \in (IF Ion THEN {"a"} ELSE {"a", "b"}) /\ pol \in Pols /\ grid \in Grids
        /\ extra \in Extras
        /\ fill = [i \in 1..Rows |-> [j \in 1..pol |-> Zero]] /\ adds = 0
(* electrons are added; momenta and spins in order, so that every atom is reached once *)
Room(m) == IF Ion THEN Len(H2p[m + 1]) ELSE IF m < Deep THEN ((Deep - m) * (Deep - m + 1)) \div 2 ELSE 0
Later(m, j) == \A i \in 0..Rows - 1 : \A s \in 1..pol : (i > m \/ (i = m /\ s > j)) => N(i, s) = Zero
Add(m, j, q) == /\ adds < Adds /\ Later(m, j)
                /\ Used(QAdd(N(m, j), q), m) + (IF extra THEN 1 ELSE 0) <= Room(m)
                /\ fill' = [fill EXCEPT ![m + 1][j] = QAdd(@, q)]
                /\ adds' = adds + 1 /\ UNCHANGED <<kind, z, focus, pol, extra, grid>>
Next == \E m \in Least..Rows - 1 : \E j \in 1..pol : \E q \in Chunks : Add(m, j, q)
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------ laws *)
Shells == \A n \in 1..4 :
  (* n^2 states in shell n, counted over both signs of m ... *)
  /\ QSum([i \in 1..n |-> Q((IF i = 1 THEN 1 ELSE 2) * (n - i + 1))]) = Q(n * n)
  (* ... and the k-th level lies in the shell its counting says *)
  /\ \A m \in 0..n - 1 : \A k \in 1..10 : Shell(m, k) = n =>
       /\ k > ((n - m) * (n - m - 1)) \div 2
       /\ k <= ((n - m) * (n - m + 1)) \div 2
Deeper == adds > 0 => /\ QLess(E, Zero)
                      (* no electron lies deeper than the lowest level, none higher than the top *)
                      /\ QLeq(QMul(Electrons, Level(0, 1)), E)
                      /\ QLeq(E, QMul(Electrons, Top))
(* a filled shell holds -z^2, in every shell *)
(* the table: below the atom's levels one by one, and in sums above the united atom's (min-max) *)
Table == \A m \in 0..2 : \A k \in 1..Len(H2p[m + 1]) :
  LET at(i) == QDiv(QF(-1, 2), LET n == Shell(m, i) IN Q(n * n))
      ion(i) == QF(-H2p[m + 1][i], 10000000)
  IN /\ QLeq(ion(k), at(k))
     /\ k > 1 => QLeq(ion(k - 1), ion(k))
     /\ k <= 3 => QLeq(QSum([i \in 1..k |-> QMul(Q(4), at(i))]), QSum([i \in 1..k |-> QF(-H2p[m + 1][i], 10000000)]))
Filled == kind = "atom" => \A n \in 1..3 :
  QSum([i \in 1..n |-> QMul(Q((IF i = 1 THEN 2 ELSE 4) * (n - i + 1)), Level(i - 1, ((n - i + 1) * (n - i + 2)) \div 2))])
  = QNeg(QMul(z, z))
Normal == \A m \in 0..3 :      \* the circular densities are normalised: radial integral times angular one
  LET n == m + 1
      ang == <<Q(4), QF(8, 3), QF(32, 15), QF(64, 35)>>[m + 1]      \* of sin^(2m) over the sphere, / pi
  IN QMul(QMul(Coef(m), ang), QMul(Q(Fact(2 * n)), Pow(QF(n, 2), 2 * n + 1))) = One

ASSUME Shells /\ Normal /\ Table

(* --------------------------------------------------- what is compared *)
Mat(F(_, _)) == [i \in 1..Rows |-> [j \in 1..pol |-> F(i - 1, j)]]
Emit == adds > 0 =>
  PrintT("@@" \o ToJson([kind |-> kind, z |-> z, focus |-> focus, pol |-> pol, grid |-> grid, n |-> Mat(N), nmo |-> Mat(Nmo), shell |-> MaxShell,
     levels |-> Mat(LAMBDA m, j : [k \in 1..Nmo(m, j) |-> Level(m, k)]),
     E |-> E, Ts |-> QNeg(E), Enuc |-> QMul(Q(2), E), Eks |-> [j \in 1..pol |-> QSum([i \in 1..Rows |-> RowE(i - 1, j)])],
     u |-> Top, el |-> Electrons, circular |-> Circular,
     terms |-> IF ~Circular THEN <<>> ELSE Mat(LAMBDA m, j : [c |-> QMul(N(m, j), Coef(m)), p |-> 2 * m, d |-> QF(2, m + 1)]),
     r |-> IF Circular THEN Weighted(MomentR) ELSE Zero, r2 |-> IF Circular THEN Weighted(MomentR2) ELSE Zero,
     z2 |-> IF Circular THEN Weighted(MomentZ2) ELSE Zero,
     hartree |-> IF Lowest THEN QMul(QF(5, 16), QMul(z, QMul(Electrons, Electrons))) ELSE Zero, lowest |-> Lowest]))
=============================================================================
