------------------------------ MODULE Operators ------------------------------
(***************************************************************************)
(* C06.  Two-dimensional operators as sums of tensor terms.                 *)
(*                                                                          *)
(* A term <<l, ma, mr, r>> acts on a field as                               *)
(*     l(A,X) * (ma along the angle) (mr along the radius) [ r(A,X) * f ]   *)
(* with ma / mr one of the exact one-dimensional matrices of Deriv1D (or    *)
(* the identity) and l, r symbolic functions of the point.                  *)
(***************************************************************************)
EXTENDS Deriv1D, Expr

A == V("A")   X == V("X")   a == V("a")
H1 == Mul(a, Sqrt(Add(Sq(Sinh(X)), Sq(Sin(A)))))
H2 == H1
H3 == Mul3(a, Sinh(X), Sin(A))
Vol == Mul3(H1, H2, H3)
U == R(1, 1)

Term(l, ma, mr, r) == [l |-> l, ma |-> ma, mr |-> mr, r |-> r]

(* Laplacian times the volume element, parity p in {"e","o"} *)
Lap(p) == <<
  Term(Mul(a, Mul(Sinh(X), Sin(A))),  p \o "a2", "I", U),
  Term(Mul(a, Mul(Sinh(X), Cos(A))),  p \o "a1", "I", U),
  Term(Mul(a, Mul(Sin(A), Sinh(X))),  "I", p \o "r2", U),
  Term(Mul(a, Mul(Sin(A), Cosh(X))),  "I", p \o "r1", U) >>
(* what the samples beyond the outer boundary add, last h layers only *)
BLap == <<
  Term(Mul(a, Mul(Sin(A), Sinh(X))),  "I", "bc2", U),
  Term(Mul(a, Mul(Sin(A), Cosh(X))),  "I", "bc1", U) >>
GradA == << Term(Div(U, H1), "ea1", "I", U) >>
GradR == << Term(Div(U, H2), "I", "er1", U) >>
DivA  == << Term(Div(U, Mul3(H1, H2, H3)), "oa1", "I", Mul(H2, H3)) >>
DivR  == << Term(Div(U, Mul3(H1, H2, H3)), "I", "or1", Mul(H1, H3)) >>
Scale(c, ts) == [i \in 1..Len(ts) |-> [ts[i] EXCEPT !.l = Mul(c, @)]]
(* Orbital Hamiltonian of angular momentum m, no potential, times volume *)
Ham(m) == Scale(R(-1, 2), Lap(IF m % 2 = 0 THEN "e" ELSE "o"))
          \o << Term(Mul(R(m * m, 1), Mul(Vol, Div(R(1, 2), Sq(H3)))), "I", "I", U) >>

Ops == [elap |-> Lap("e"), olap |-> Lap("o"), blap |-> BLap,
        grada |-> GradA, gradr |-> GradR, diva |-> DivA, divr |-> DivR,
        H0 |-> Ham(0), H1 |-> Ham(1), H2 |-> Ham(2), H3 |-> Ham(3), H4 |-> Ham(4), H5 |-> Ham(5)]

(* Behaviour under the bond-axis mirror A -> pi - A: sin even, cos odd,     *)
(* first angular derivatives odd (AngularLaws of Deriv1D), rest even.       *)
RECURSIVE EParity(_)
EParity(e) ==
  CASE e.f = "cos" -> -1
    [] e.f \in {"sin", "sinh", "cosh", "sqrt", "var", "rat"} -> 1
    [] e.f \in {"mul", "div"} -> EParity(e.a[1]) * EParity(e.a[2])
    [] OTHER -> LET x == EParity(e.a[1]) y == EParity(e.a[2]) IN
                IF x = y THEN x ELSE 0
MParity(s) == IF s \in {"ea1", "oa1"} THEN -1 ELSE 1
TParity(t) == EParity(t.l) * MParity(t.ma) * EParity(t.r)
MirrorParity == [elap |-> 1, olap |-> 1, blap |-> 1, grada |-> -1, gradr |-> 1,
                 diva |-> -1, divr |-> 1,
                 H0 |-> 1, H1 |-> 1, H2 |-> 1, H3 |-> 1, H4 |-> 1, H5 |-> 1]
ParityLaw == \A o \in DOMAIN Ops : \A i \in 1..Len(Ops[o]) : TParity(Ops[o][i]) = MirrorParity[o]
(* A term never couples points that differ in both indices. *)
LineLaw == \A o \in DOMAIN Ops : \A i \in 1..Len(Ops[o]) : "I" \in {Ops[o][i].ma, Ops[o][i].mr}
(* Constants are annihilated by the even Laplacian once the boundary        *)
(* samples are put back.                                                    *)
ConstLaw ==
  LET e2 == Mat(2, na, TRUE, 1)  e1 == Mat(1, na, TRUE, 1) IN
  /\ \A i \in 1..na : QSum(e2[i]) = Zero /\ QSum(e1[i]) = Zero
  /\ \A k \in {1, 2} :
       LET M == Mat(k, nr, FALSE, 1)  B == BC(k) IN
       \A i \in 1..nr :
         QAdd(QSum(M[i]), IF i > nr - h THEN QSum(B[i - nr + h]) ELSE Zero) = Zero

EmitOps == (na >= 2 /\ nr >= 2) =>
  PrintT("@@" \o ToJson([h |-> h, na |-> na, nr |-> nr, ops |-> Ops, par |-> MirrorParity,
    mats |-> [ea1 |-> Mat(1, na, TRUE, 1),  ea2 |-> Mat(2, na, TRUE, 1),
              oa1 |-> Mat(1, na, TRUE, -1), oa2 |-> Mat(2, na, TRUE, -1),
              er1 |-> Mat(1, nr, FALSE, 1), er2 |-> Mat(2, nr, FALSE, 1),
              or1 |-> Mat(1, nr, FALSE, -1), or2 |-> Mat(2, nr, FALSE, -1),
              bc1 |-> BC(1), bc2 |-> BC(2)]]))
=============================================================================
