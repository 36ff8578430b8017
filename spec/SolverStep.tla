----------------------------- MODULE SolverStep -----------------------------
(***************************************************************************)
(* C11.  Life of an orbital solver: set a potential, solve, refine.         *)
(*                                                                          *)
(* The Hamiltonian (in volume-symmetrised coordinates) couples only mirror  *)
(* pairs of points: pair b has the block                                    *)
(*      [ base_b + v1   q_b        ]                                        *)
(*      [ q_b           base_b + v2]                                        *)
(* where v = <<v1, v2>> is the potential on that pair.  All other levels    *)
(* lie far above.  Orbitals are records of pair, direction y and energy e.  *)
(* Solve returns the lowest eigenpairs in order; Refine makes one Newton    *)
(* step of the bordered system for every orbital.  Everything is exact.     *)
(***************************************************************************)
EXTENDS Rat, Json

CONSTANTS Base,      \* sequence of integers, one per pair
          Coup,      \* sequence of integers, one per pair
          Vs,        \* set of potentials: sequences of <<v1, v2>>
          NmoMax, MaxSteps

(* constants of the configuration with a degenerate pair *)
DBase == <<-9, -5>>
DCoup == <<2, 0>>
DVs == { <<<<0,0>>,<<0,0>>>>, <<<<0,3>>,<<2,2>>>>, <<<<3,0>>,<<1,1>>>>, <<<<1,1>>,<<-1,-1>>>>,
         <<<<-3,0>>,<<-7,-7>>>>, <<<<0,0>>,<<0,2>>>>, <<<<0,0>>,<<-8,-1>>>> }

VARIABLES v, orbs, hist, nmo, fresh
vars == <<v, orbs, hist, nmo, fresh>>

Pairs == 1..Len(Base)
(* integer square root of a perfect square *)
ISqrt(x) == CHOOSE r \in 0..200 : r * r = x
Square(x) == \E r \in 0..200 : r * r = x
H(vv, b) == [a |-> Base[b] + vv[b][1], c |-> Base[b] + vv[b][2], q |-> Coup[b]]
Disc(vv, b) == LET k == H(vv, b) IN (k.a - k.c) * (k.a - k.c) + 4 * k.q * k.q
(* eigenpairs of a block; q >= 0.  An uncoupled balanced pair (two distant  *)
(* equal centres) is degenerate: its orbitals are the even one, then the    *)
(* odd one.                                                                 *)
Degenerate(vv, b) == LET k == H(vv, b) IN k.q = 0 /\ k.a = k.c
Eig(vv, b, s) ==     \* s = -1 lower, +1 upper
  LET k == H(vv, b)  d == ISqrt(Disc(vv, b))
      e == QF(k.a + k.c + s * d, 2)
  IN  [b |-> b, e |-> e,
       y |-> IF k.q # 0 THEN << Q(k.q), QSub(e, Q(k.a)) >>
             ELSE IF k.a = k.c THEN << One, Q(0 - s) >>
             ELSE IF e = Q(k.a) THEN << One, Zero >> ELSE << Zero, One >>]
Spectrum(vv) == {Eig(vv, b, s) : b \in Pairs, s \in {-1, 1}}
Distinct(vv) == \A x, y \in Spectrum(vv) :
   x # y => x.e # y.e \/ (x.b = y.b /\ Degenerate(vv, x.b))
RECURSIVE Lowest(_, _)
Lowest(S, k) == IF k = 0 THEN <<>>
  ELSE LET x == CHOOSE x \in S : \A y \in S :
           QLess(x.e, y.e) \/ (x.e = y.e /\ QLeq(y.y[2], x.y[2]))
       IN  <<x>> \o Lowest(S \ {x}, k - 1)

Usable(vv) == (\A b \in Pairs : Square(Disc(vv, b))) /\ Distinct(vv)
GoodVs == TLCEval({vv \in Vs : Usable(vv)})

Init == /\ nmo \in 1..NmoMax /\ v \in GoodVs /\ orbs = <<>> /\ fresh = FALSE
        /\ hist = <<[op |-> "set", v |-> v]>>
SetV(w) == /\ w # v /\ orbs # <<>> /\ v' = w /\ fresh' = FALSE
           /\ hist' = Append(hist, [op |-> "set", v |-> w])
           /\ UNCHANGED <<orbs, nmo>>
(* "the nmo lowest" is well defined *)
Clear(vv) == LET l == Lowest(Spectrum(vv), nmo + 1) IN l[nmo].e # l[nmo + 1].e
Solve == /\ Clear(v)
         /\ orbs' = TLCEval(Lowest(Spectrum(v), nmo)) /\ fresh' = TRUE
         /\ hist' = Append(hist, [op |-> "calc"])
         /\ UNCHANGED <<v, nmo>>
Dot(x, y) == QAdd(QMul(x[1], y[1]), QMul(x[2], y[2]))
HMul(k, y) == << QAdd(QMul(Q(k.a), y[1]), QMul(Q(k.q), y[2])),
                 QAdd(QMul(Q(k.q), y[1]), QMul(Q(k.c), y[2])) >>
SubE(x, e, y) == << QSub(x[1], QMul(e, y[1])), QSub(x[2], QMul(e, y[2])) >>
Newton(o) ==
  LET k == H(v, o.b)
      r == SubE(HMul(k, o.y), o.e, o.y)                 \* residual
      p == << QNeg(o.y[2]), o.y[1] >>                   \* orthogonal direction
      gp == SubE(HMul(k, p), o.e, p)
      den == Dot(p, gp)
      t == QDiv(Dot(p, r), den)
      mu == QDiv(QSub(QMul(t, Dot(o.y, gp)), Dot(o.y, r)), Dot(o.y, o.y))
  IN  [b |-> o.b, y |-> << QSub(o.y[1], QMul(t, p[1])), QSub(o.y[2], QMul(t, p[2])) >>,
       e |-> QSub(o.e, mu), ok |-> den # Zero]
Regular(o) == LET k == H(v, o.b)  p == << QNeg(o.y[2]), o.y[1] >>
              IN  /\ Dot(p, SubE(HMul(k, p), o.e, p)) # Zero
                  /\ \A c \in Pairs \ {o.b} : \A s \in {-1, 1} : Eig(v, c, s).e # o.e
Refine == /\ orbs # <<>>
          /\ hist[Len(hist)].op # "refine"              \* one exact step at a time
          /\ \A i \in 1..Len(orbs) : Regular(orbs[i])
          /\ orbs' = TLCEval([i \in 1..Len(orbs) |->
                LET n == Newton(orbs[i]) IN [b |-> n.b, y |-> n.y, e |-> n.e]])
          /\ hist' = Append(hist, [op |-> "refine"])
          /\ fresh' = fresh
          /\ UNCHANGED <<v, nmo>>
Refined == \E i \in 1..Len(hist) : hist[i].op = "refine"
Next == /\ Len(hist) < MaxSteps
        /\ \/ (\E w \in GoodVs : SetV(w)) /\ ~Refined /\ hist[Len(hist)].op # "set"
           \/ Solve /\ hist[Len(hist)].op # "calc"
           \/ Refine
Spec == Init /\ [][Next]_vars

Residual(o) == SubE(HMul(H(v, o.b), o.y), o.e, o.y)
(* Fresh orbitals satisfy the eigenvalue equation, ascending; refining them *)
(* changes nothing.                                                         *)
FreshExact == fresh =>
  /\ Len(orbs) = nmo
  /\ \A i \in 1..nmo : Residual(orbs[i]) = <<Zero, Zero>>
  /\ \A i \in 1..(nmo - 1) : QLeq(orbs[i].e, orbs[i + 1].e)
(* In a mirror-symmetric potential fresh orbitals are even or odd.          *)
ParityPure == (fresh /\ \A b \in Pairs : v[b][1] = v[b][2]) =>
  \A i \in 1..nmo : QAbs(orbs[i].y[1]) = QAbs(orbs[i].y[2])

Emit == (Len(hist) > 1 /\ hist[Len(hist)].op # "set") =>
  PrintT("@@" \o ToJson([nmo |-> nmo, hist |-> hist, orbs |-> orbs, fresh |-> fresh,
    base |-> Base, coup |-> Coup,
    symv |-> \A b \in Pairs : v[b][1] = v[b][2]]))
=============================================================================
