------------------------------ MODULE Deriv1D ------------------------------
(***************************************************************************)
(* C02.  One-dimensional derivative matrices on half-cell-shifted grids.    *)
(*                                                                          *)
(* A grid line has points 1..N at positions i - 1/2 (in units of the        *)
(* spacing).  A field of parity p is continued across position 0 by         *)
(* f(1-j) = p f(j); the angular line is also continued across position N by *)
(* f(2N+1-j) = p f(j); the radial line is not: what lies beyond N belongs   *)
(* to the outer boundary block (bc), whose column s stands for point N+s.   *)
(* A derivative row applies the stencil weights to the continued field.     *)
(***************************************************************************)
EXTENDS Rat, Json

CONSTANTS MaxHalf, MaxExtra

VARIABLES h, na, nr      \* stencil half-width, angular / radial points

St(hh) == TLCEval([i \in 1..(2 * hh + 1) |-> Q(i - 1 - hh)])
W(hh, k) == TLCEval([i \in 1..(2 * hh + 1) |->
               QMul(Q(Fact(k)), Lagrange(St(hh), i)[k + 1])])

(* Where offset point j of an N-point line lands: index 0 = outside. *)
RECURSIVE Fold(_, _, _)
Fold(j, n, ang) ==
  IF j < 1 THEN LET f == Fold(1 - j, n, ang) IN [ix |-> f.ix, fl |-> f.fl + 1]
  ELSE IF j > n THEN IF ang THEN LET f == Fold(2 * n + 1 - j, n, ang) IN
                                 [ix |-> f.ix, fl |-> f.fl + 1]
                     ELSE [ix |-> 0, fl |-> 0]
  ELSE [ix |-> j, fl |-> 0]
Par(p, f) == IF f % 2 = 0 THEN 1 ELSE p

(* Entry (i, j) of the k-th derivative matrix. *)
Entry(w, n, ang, p, i, j) ==
  QSum([s \in 1..(2 * h + 1) |->
     LET f == Fold(i + s - 1 - h, n, ang) IN
     IF f.ix = j THEN QMul(Q(Par(p, f.fl)), w[s]) ELSE Zero])
Mat(k, n, ang, p) ==
  LET w == W(h, k) IN
  TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> Entry(w, n, ang, p, i, j)])])
(* Boundary block: rows N-h+1..N, columns N+1..N+h. *)
BC(k) == LET w == W(h, k) IN
  TLCEval([r \in 1..h |-> TLCEval([s \in 1..h |->
     LET off == h + s - r IN IF off <= h THEN w[off + h + 1] ELSE Zero])])

Init == h \in 1..MaxHalf /\ na = h /\ nr = h
Next == \/ na < h + MaxExtra /\ na' = na + 1 /\ UNCHANGED <<h, nr>>
        \/ nr < h + MaxExtra /\ nr' = nr + 1 /\ UNCHANGED <<h, na>>
Spec == Init /\ [][Next]_<<h, na, nr>>

Apply(M, v) == [i \in 1..Len(M) |-> QSum([j \in 1..Len(v) |-> QMul(M[i][j], v[j])])]

(* An even field is differentiated exactly where its continuation is a      *)
(* constant; derivative parity: first derivative flips the parity under the *)
(* mirror i -> N+1-i, second keeps it.                                      *)
AngularLaws ==
  LET e1 == Mat(1, na, TRUE, 1)  e2 == Mat(2, na, TRUE, 1)
      o1 == Mat(1, na, TRUE, -1) o2 == Mat(2, na, TRUE, -1) IN
  /\ \A i \in 1..na : QSum(e1[i]) = Zero /\ QSum(e2[i]) = Zero
  /\ \A i, j \in 1..na :
       /\ e1[na + 1 - i][na + 1 - j] = QNeg(e1[i][j])
       /\ o1[na + 1 - i][na + 1 - j] = QNeg(o1[i][j])
       /\ e2[na + 1 - i][na + 1 - j] = e2[i][j]
       /\ o2[na + 1 - i][na + 1 - j] = o2[i][j]
       /\ e2[i][j] = e2[j][i] /\ o2[i][j] = o2[j][i]
       /\ o1[i][j] = QNeg(e1[j][i])     \* discrete integration by parts
(* Radial rows plus the boundary block differentiate polynomials of the     *)
(* right parity exactly, up to the stencil's degree (degrees kept <= 4).    *)
Pos(i) == QF(2 * i - 1, 2)
RadialExact == h > 4 \/ nr > 11 \/   \* (beyond, numerators leave the 32-bit range)
  \A p \in {1, -1} : \A k \in {1, 2} :
    LET M == Mat(k, nr, FALSE, p)  B == BC(k) IN
    \A d \in 0..Min2(2 * h, 4) :
      (d % 2 = (IF p = 1 THEN 0 ELSE 1)) =>
        \A i \in 1..nr :
          QAdd(QSum([j \in 1..nr |-> QMul(M[i][j], QPow(Pos(j), d))]),
               IF i > nr - h
               THEN QSum([s \in 1..h |-> QMul(B[i - nr + h][s], QPow(Pos(nr + s), d))])
               ELSE Zero)
          = IF d < k THEN Zero
            ELSE QMul(Q(IF k = 1 THEN d ELSE d * (d - 1)), QPow(Pos(i), d - k))

Emit ==
  PrintT("@@" \o ToJson([h |-> h, na |-> na, nr |-> nr,
    e |-> [a1 |-> Mat(1, na, TRUE, 1),  a2 |-> Mat(2, na, TRUE, 1),
           r1 |-> Mat(1, nr, FALSE, 1), r2 |-> Mat(2, nr, FALSE, 1)],
    o |-> [a1 |-> Mat(1, na, TRUE, -1),  a2 |-> Mat(2, na, TRUE, -1),
           r1 |-> Mat(1, nr, FALSE, -1), r2 |-> Mat(2, nr, FALSE, -1)],
    bc1 |-> BC(1), bc2 |-> BC(2)]))
=============================================================================
