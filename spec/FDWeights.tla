----------------------------- MODULE FDWeights -----------------------------
(***************************************************************************)
(* C01.  The finite-difference weights of a stencil.                        *)
(*                                                                          *)
(* State: a stencil (sequence of distinct integer offsets) under            *)
(* construction, and the derivative order.  Actions extend the stencil by   *)
(* one offset.  In every complete state the exact weights are defined as    *)
(* the derivative at 0 of the Lagrange interpolant on the stencil, and the  *)
(* invariants say that they satisfy all the Taylor-table conditions, which  *)
(* characterise them uniquely (the Vandermonde matrix is nonsingular).      *)
(***************************************************************************)
EXTENDS Rat, TLC, Json, FiniteSets

CONSTANTS MaxOff,      \* offsets range over -MaxOff .. MaxOff
          MaxLen,      \* size of arbitrary stencils
          MaxHalf,     \* half-width of the symmetric stencils -h..h
          Derivs       \* derivative orders

VARIABLES st, k

Offsets == (-MaxOff)..MaxOff
Sym(h) == [i \in 1..(2 * h + 1) |-> i - 1 - h]

Init == /\ k \in Derivs
        /\ st \in {<<>>} \union {Sym(h) : h \in 1..MaxHalf}

(* Arbitrary increasing stencils, then one order-scrambling step, so that   *)
(* the weights are also bound for stencils listed out of order.             *)
IsSym(s) == \E h \in 1..MaxHalf : s = Sym(h)
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Extend == /\ ~IsSym(st) \/ st = <<>>
          /\ Len(st) < MaxLen /\ Sorted(st)
          /\ \E o \in Offsets :
               /\ IF st = <<>> THEN TRUE ELSE o > st[Len(st)]
               /\ st' = Append(st, o)
          /\ UNCHANGED k
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rotate(s)  == Append(Tail(s), Head(s))
Scramble == /\ Len(st) > 2 /\ Sorted(st)
            /\ st' \in {Reverse(st), Rotate(st)}
            /\ UNCHANGED k
Next == Extend \/ Scramble

Spec == Init /\ [][Next]_<<st, k>>

Complete == Len(st) > k
Nodes == TLCEval([i \in 1..Len(st) |-> Q(st[i])])
(* k-th derivative at 0 of a polynomial = k! * coefficient k. *)
Weights == TLCEval([i \in 1..Len(st) |-> QMul(Q(Fact(k)), Lagrange(Nodes, i)[k + 1])])

(* sum_i w_i x_i^n / n!  =  [n = k]   for n = 0 .. len-1 *)
Moment(w, n) == QSum([i \in 1..Len(st) |-> QMul(w[i], QF(IPow(st[i], n), 1))])
(* 32-bit guard: the highest moments of the wide stencils are left out of the
   invariant (never out of the conformance cases). *)
SmallPow(n) == n <= 6 \/ \A i \in 1..Len(st) : Abs(st[i]) <= 4
TaylorExact ==
  Complete => LET w == Weights IN
    \A n \in 0..(Len(st) - 1) :
       SmallPow(n) => Moment(w, n) = IF n = k THEN Q(Fact(k)) ELSE Zero
(* parity of the symmetric stencils *)
SymmetricParity ==
  (Complete /\ IsSym(st)) =>
     LET w == Weights  L == Len(st) IN
     \A i \in 1..L : w[L + 1 - i] = IF k % 2 = 0 THEN w[i] ELSE QNeg(w[i])

Emit == Complete =>
  PrintT("@@" \o ToJson([x |-> st, k |-> k, w |-> Weights]))
=============================================================================
