------------------------------ MODULE Inversion ------------------------------
(***************************************************************************)
(* C24, C25.  Inverting a density on a lattice where the answer is known.   *)
(*                                                                          *)
(* A target is built backwards: orbitals and levels are chosen first, then  *)
(* the operator and the potential in which they are the lowest ones (see    *)
(* InvModel).                                                               *)
(*                                                                          *)
(* On these a session of inversions is run: proper ones, starved ones (one  *)
(* iteration), ones whose target holds the wrong number of electrons or is  *)
(* not a number.  After each the machine says what may be reported and what *)
(* kinetic potential, kinetic energy and kinetic energy density the         *)
(* inverter has to have if it reports success.                              *)
(***************************************************************************)
EXTENDS InvModel
CONSTANTS Systems, Programs
VARIABLES c, meth, prog, at, good, lost, out
vars == <<c, meth, prog, at, good, lost, out>>
(* --------------------------------------------------------------- session *)
Spins == 1..c.pol
Methods == {"wuyang", "orbitalinvert"}
Init == /\ c \in Systems /\ meth \in Methods
        /\ prog \in {x \in Programs : \A k \in 1..Len(x) : x[k].spin <= c.pol /\ (c.ess => x[k].spin = 1)
                                          /\ (x[k].spin = 0 => c.pol = 2 /\ meth = "wuyang")}
        /\ at = 1 /\ good = {} /\ lost = {} /\ out = <<>>
Op == prog[at]
Meant == IF Op.spin = 0 THEN Spins ELSE {Op.spin}      \* spin 0: a density with both columns
(* the one solution of a spin symmetric ensemble is carried over *)
Got == IF c.ess /\ meth = "wuyang" THEN Spins ELSE Meant
(* what may come of it: a proper one succeeds from the start given to it, and
   also from what a starved or proper one left, but not surely from what
   an impossible one left *)
May == IF Op.what = "proper" THEN (IF Meant \cap lost = {} THEN {"success"} ELSE {"success", "failure", "refusal"})
       ELSE {"failure", "refusal"}
Goods == IF Op.what = "proper" /\ Meant \cap lost = {} THEN good \cup Got ELSE good \ Got
Run == /\ at <= Len(prog)
       /\ good' = Goods
       /\ lost' = IF Op.what \in {"wrong", "nan"} THEN lost \cup Meant ELSE lost
       /\ out' = Append(out, [op |-> Op, may |-> May, good |-> Goods, meant |-> Meant])
       /\ at' = at + 1 /\ UNCHANGED <<c, meth, prog>>
Next == Run
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ properties *)
(* the chosen orbitals are those of the operator in the potential *)
EigenEq == at = 1 => \A p \in Spins : Let1(Pot(c, p), LAMBDA v : \A r \in Rows(c) : Let1(Kin(c, r), LAMBDA h :
   \A k \in 1..Len(Phi(c, r, p)) : Let1(Apply(h, Phi(c, r, p)[k]), LAMBDA t : \A i \in Sites :
      QAdd(t[i], QMul(Q(Wt[i] * Phi(c, r, p)[k][i]), v[i])) = QMul(Lev(c, r, p)[k], Q(Wt[i] * Phi(c, r, p)[k][i])))))
Orthogonal == at = 1 => \A p \in Spins : \A r \in Rows(c) : \A k, l \in 1..Len(Phi(c, r, p)) : k = l \/
   IP(Phi(c, r, p)[k], Phi(c, r, p)[l]) = 0
Ordered == at = 1 => \A p \in Spins : \A r \in Rows(c) :
   /\ \A k \in 1..(Len(Lev(c, r, p)) - 1) : QLess(Lev(c, r, p)[k], Lev(c, r, p)[k + 1])
   /\ \A k \in 1..Len(Lev(c, r, p)) : r > 2 \/ QLess(Lev(c, r, p)[k], High)
Positive == at = 1 => \A p \in Spins : (\A r \in Rows(c) : c.n4[r][p] = 0) \/ \A i \in Sites : QLess(Zero, Dens(c, p)[i])
Counts == at = 1 => \A p \in Spins :
   QMul(Wi, QSum([i \in Sites |-> QMul(Q(Wt[i]), Dens(c, p)[i])])) = Electrons(c, p)
(* the density of the kinetic energy integrates to it *)
Integrates == at = 1 => \A p \in Spins : Let1(Ked(c, p), LAMBDA t :
   QMul(Wi, QSum([i \in Sites |-> QMul(Q(Wt[i]), t[i])])) = TsOf(c, p))
(* one orbital: the kinetic potential is the orbital's own, whatever level it was put at *)
VonWeizsaecker == (at = 1 /\ c.fam = "one") => \A p \in Spins : \A i \in Sites :
   Vt(c, p)[i] = QDiv(Apply(HOne(1), c.phis[1][p])[i], Q(Wt[i] * c.phis[1][p][i]))
SymPure == (at = 1 /\ c.sym) => \A p \in Spins : \A i \in Sites :
   Dens(c, p)[i] = Dens(c, p)[Mirror[i]] /\ Vt(c, p)[i] = Vt(c, p)[Mirror[i]]
(* only proper inversions count, and failing ones withdraw what they touched *)
GoodOnes == \A p \in good : \E k \in 1..Len(out) : /\ p \in out[k].good /\ out[k].op.what = "proper"
   /\ \A l \in (k + 1)..Len(out) : p \in out[l].meant => out[l].op.what = "proper"
Emit == at > Len(prog) => PrintT("@@" \o ToJson(
   [pol |-> c.pol, ess |-> c.ess, sym |-> c.sym, n4 |-> c.n4, steps |-> out, meth |-> meth, fam |-> c.fam,
    wt |-> Wt, nocc |-> [r \in Rows(c) |-> [p \in Spins |-> Nocc(c, r, p)]],
    phi |-> [p \in Spins |-> [r \in Rows(c) |-> Phi(c, r, p)]], lev |-> [p \in Spins |-> [r \in Rows(c) |-> Lev(c, r, p)]],
    kin |-> [r \in Rows(c) |-> Kin(c, r)], v |-> [p \in Spins |-> Pot(c, p)],
    n |-> [p \in Spins |-> Dens(c, p)], vt |-> [p \in Spins |-> Vt(c, p)],
    ts |-> [p \in Spins |-> TsOf(c, p)], ked |-> [p \in Spins |-> Ked(c, p)]]))

(* ------------------------------------------------------------- instances *)
Do(what, spin) == [what |-> what, spin |-> spin]
P1 == {"proper", "starved", "wrong", "nan"}
SomePrograms == { <<Do(a, 1)>> : a \in P1 }
  \cup { <<Do(a, 1), Do("proper", 1)>> : a \in {"proper", "starved", "wrong"} }
  \cup { <<Do("proper", 1), Do(a, 1)>> : a \in {"wrong", "nan"} }
  \cup { <<Do("proper", 1), Do("proper", 2)>>, <<Do("proper", 2), Do("proper", 1)>>, <<Do("proper", 2)>>,
         <<Do("proper", 1), Do("wrong", 2)>>, <<Do("starved", 2), Do("proper", 1), Do("proper", 2)>>, <<Do("nan", 1), Do("proper", 2)>>, <<Do("proper", 0)>>, <<Do("proper", 0), Do("proper", 2)>>, <<Do("wrong", 0)>>,
         <<Do("proper", 2), Do("starved", 1), Do("proper", 1)>> }
=============================================================================
