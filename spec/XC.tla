--------------------------------- MODULE XC ---------------------------------
(***************************************************************************)
(* C09.  Exchange-correlation assembly.                                     *)
(*                                                                          *)
(* Two halves share the same formulas: an exact half evaluates them on a    *)
(* two-site lattice with integer gradient matrices Ga, Gr, divergence       *)
(* matrices -Ga^T, -Gr^T and a quadratic functional, where TLC checks that  *)
(* the potential is the derivative of the energy, spin covariance, and      *)
(* agreement of the spinless with the spin-resolved form; a symbolic half   *)
(* emits the formulas for the real grid, operators and functionals.         *)
(***************************************************************************)
EXTENDS Rat, Expr, Json

CONSTANTS KMax, FuncIds, Coefs

VARIABLES nu, nd, cf      \* densities on the two sites; functional coefficients

Sites == 1..2
Ga == <<<<1, -1>>, <<0, 2>>>>
Gr == <<<<1, 1>>, <<-1, 0>>>>
MV(M, v) == [i \in Sites |-> M[i][1] * v[1] + M[i][2] * v[2]]
MTV(M, v) == [i \in Sites |-> -(M[1][i] * v[1] + M[2][i] * v[2])]   \* divergence

(* energy density  uu*s_uu + ud*s_ud + dd*s_dd + q*u*u + r*u*d + s*d *)
Dot(x, y) == [i \in Sites |-> MV(Ga, x)[i] * MV(Ga, y)[i] + MV(Gr, x)[i] * MV(Gr, y)[i]]
EDens(c, u, d) == [i \in Sites |->
   c.uu * Dot(u, u)[i] + c.ud * Dot(u, d)[i] + c.dd * Dot(d, d)[i]
   + c.q * u[i] * u[i] + c.r * u[i] * d[i] + c.s * d[i]]
Energy(c, u, d) == EDens(c, u, d)[1] + EDens(c, u, d)[2]
DivGrad(n) == [i \in Sites |-> MTV(Ga, MV(Ga, n))[i] + MTV(Gr, MV(Gr, n))[i]]
Vu(c, u, d) == [i \in Sites |-> (2 * c.q * u[i] + c.r * d[i])
                 - 2 * c.uu * DivGrad(u)[i] - c.ud * DivGrad(d)[i]]
Vd(c, u, d) == [i \in Sites |-> (c.r * u[i] + c.s)
                 - 2 * c.dd * DivGrad(d)[i] - c.ud * DivGrad(u)[i]]

Dens == [Sites -> 0..KMax]
Init == nu \in Dens /\ nd \in Dens /\ cf \in Coefs
Next == UNCHANGED <<nu, nd, cf>>
Spec == Init /\ [][Next]_<<nu, nd, cf>>

Bump(n, i, t) == [n EXCEPT ![i] = @ + t]
(* central differences of a quadratic are exact *)
IsDerivative == \A i \in Sites :
  /\ Energy(cf, Bump(nu, i, 1), nd) - Energy(cf, Bump(nu, i, -1), nd) = 2 * Vu(cf, nu, nd)[i]
  /\ Energy(cf, nu, Bump(nd, i, 1)) - Energy(cf, nu, Bump(nd, i, -1)) = 2 * Vd(cf, nu, nd)[i]
(* For a functional symmetric in the spins, exchanging them exchanges the   *)
(* potentials.                                                              *)
SpinCovariant == (cf.uu = cf.dd /\ cf.q = 0 /\ cf.s = 0) =>
  /\ Energy(cf, nu, nd) = Energy(cf, nd, nu)
  /\ Vu(cf, nu, nd) = Vd(cf, nd, nu)

(* ------------------------------ symbolic half --------------------------- *)
G_a(e) == Fn("grada", <<e>>)   G_r(e) == Fn("gradr", <<e>>)
Div_(ea, er) == Add(Fn("diva", <<ea>>), Fn("divr", <<er>>))
U == V("u")   D == V("d")   N == V("n")
Contract(x, y) == Add(Mul(G_a(x), G_a(y)), Mul(G_r(x), G_r(y)))
Sigma2 == << Contract(U, U), Contract(U, D), Contract(D, D) >>
Sigma1 == << Contract(N, N) >>
Flux(vs, n) == Div_(Mul(vs, G_a(n)), Mul(vs, G_r(n)))
PotLDA(k) == V("vrho" \o k)
PotGGA1 == Sub(V("vrho1"), Mul(R(2, 1), Flux(V("vs1"), N)))
PotGGA2 == << Sub(Sub(V("vrho1"), Mul(R(2, 1), Flux(V("vs1"), U))), Flux(V("vs2"), D)),
              Sub(Sub(V("vrho2"), Mul(R(2, 1), Flux(V("vs3"), D))), Flux(V("vs2"), U)) >>
(* reduced gradient |grad n| / (2 (3 pi^2)^(1/3) n^(4/3)); per spin on twice the spin density *)
Cbrt(e) == Fn("cbrt", <<e>>)
Reduced(n) == Div(Sqrt(Contract(n, n)),
                  Mul3(R(2, 1), Cbrt(Mul(R(3, 1), Sq(Pi))), PowE(Cbrt(n), 4)))
Red1 == << Reduced(N) >>
Red2 == << Reduced(Mul(R(2, 1), U)), Reduced(Mul(R(2, 1), D)) >>

Zeros == [i \in Sites |-> 0]
Emit == (nu = Zeros /\ nd = Zeros /\ cf = CHOOSE c \in Coefs : TRUE) =>
  \A f \in FuncIds : \A pol \in {1, 2} :
   PrintT("@@" \o ToJson(
    [func |-> f[1], family |-> f[2], symfun |-> f[3], pol |-> pol,
     sigma |-> IF pol = 1 THEN Sigma1 ELSE Sigma2,
     v |-> IF f[2] = "lda" THEN (IF pol = 1 THEN <<V("vrho1")>> ELSE <<V("vrho1"), V("vrho2")>>)
           ELSE IF pol = 1 THEN <<PotGGA1>> ELSE PotGGA2,
     reduced |-> IF pol = 1 THEN Red1 ELSE Red2,
     edens |-> IF pol = 1 THEN Mul(V("eps"), N) ELSE Mul(V("eps"), Add(U, D))]))
=============================================================================
