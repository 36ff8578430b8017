-------------------------------- MODULE Quad --------------------------------
(***************************************************************************)
(* C03.  Composite closed quadrature on a half-cell-shifted line.           *)
(*                                                                          *)
(* The line is built from nb blocks of np points that share end points, so  *)
(* it has n = (np-1) nb + 1 points at positions j - 1/2, j = 1..n, on the   *)
(* interval [0, n].  The rule is assembled contribution by contribution:    *)
(* one closed Newton-Cotes rule per block, and at each end of the line the  *)
(* half cell between the interval end and the outermost point, where the    *)
(* integrand is interpolated with the value 0 at the interval end (every    *)
(* integrand of this code base carries the vanishing volume element).       *)
(* Contributions ADD where they overlap.                                    *)
(***************************************************************************)
EXTENDS Rat, Json

CONSTANTS MaxNP, MaxNB, MaxPts

VARIABLES np, nb, pc, wt     \* pc: contributions added so far

n == (np - 1) * nb + 1

(* Closed rule on 0..np-1, and the half-cell rule on {0, 1/2, 3/2, ...}.    *)
BlockNodes == TLCEval([i \in 1..np |-> Q(i - 1)])
BlockRule  == TLCEval([i \in 1..np |-> PInt(Lagrange(BlockNodes, i), Q(np - 1))])
HalfNodes  == TLCEval([i \in 1..np |-> IF i = 1 THEN Zero ELSE QF(2 * i - 3, 2)])
HalfRule   == TLCEval([i \in 1..(np - 1) |-> PInt(Lagrange(HalfNodes, i + 1), QF(1, 2))])

Init == /\ np \in 2..MaxNP /\ nb \in 1..MaxNB /\ n <= MaxPts
        /\ pc = 0
        /\ wt = [j \in 1..n |-> Zero]

AddLeft  == /\ pc = 0 /\ pc' = 1
            /\ LET r == HalfRule IN
               wt' = TLCEval([j \in 1..n |-> IF j <= np - 1 THEN QAdd(wt[j], r[j]) ELSE wt[j]])
AddRight == /\ pc = 1 /\ pc' = 2
            /\ LET r == HalfRule IN
               wt' = TLCEval([j \in 1..n |-> IF n + 1 - j <= np - 1
                                THEN QAdd(wt[j], r[n + 1 - j]) ELSE wt[j]])
AddBlock(b) == /\ pc = b + 1 /\ pc' = b + 2
               /\ LET r == BlockRule  o == (b - 1) * (np - 1) IN
                  wt' = TLCEval([j \in 1..n |-> IF j > o /\ j <= o + np
                                   THEN QAdd(wt[j], r[j - o]) ELSE wt[j]])
Next == /\ (AddLeft \/ AddRight \/ \E b \in 1..nb : AddBlock(b))
        /\ UNCHANGED <<np, nb>>
Spec == Init /\ [][Next]_<<np, nb, pc, wt>>

Done == pc = nb + 2

(* Elementary rules integrate the monomials they can. *)
RulesExact ==
  pc = 0 =>
  /\ \A d \in 0..(np - 1) :
       QSum([i \in 1..np |-> QMul(BlockRule[i], QPow(BlockNodes[i], d))])
         = QDiv(QPow(Q(np - 1), d + 1), Q(d + 1))
  /\ \A d \in 1..(np - 1) :
       QSum([i \in 1..(np - 1) |-> QMul(HalfRule[i], QPow(HalfNodes[i + 1], d))])
         = QDiv(QPow(QF(1, 2), d + 1), Q(d + 1))
(* The assembled rule is symmetric, and integrates exactly every polynomial *)
(* x (n - x) x^d of degree below np over the whole interval.                *)
Pos(j) == QF(2 * j - 1, 2)
Assembled ==
  Done =>
  /\ \A j \in 1..n : wt[j] = wt[n + 1 - j]
  /\ (np <= 5 /\ n <= 13) =>     \* (32-bit arithmetic bounds this conjunct only)
     \A d \in 0..Min2(np - 3, 1) :
       QSum([j \in 1..n |-> QMul(wt[j], QMul(QMul(Pos(j), QSub(Q(n), Pos(j))), QPow(Pos(j), d)))])
         = QSub(QDiv(QPow(Q(n), d + 3), Q(d + 2)), QDiv(QPow(Q(n), d + 3), Q(d + 3)))

Emit == Done => PrintT("@@" \o ToJson([np |-> np, nb |-> nb, w |-> wt]))
=============================================================================
