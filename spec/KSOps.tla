------------------------------- MODULE KSOps --------------------------------
(***************************************************************************)
(* C13.  One pass through a Kohn-Sham calculation: density -> potentials -> *)
(* orbitals -> density -> energies and chemical potential, for every        *)
(* configuration, with every choice at every step.                          *)
(***************************************************************************)
EXTENDS KSModel

CONSTANTS Configs,   \* set of configuration records, integer nuclear fields per spin
          Dens,      \* set of densities <<spin up, spin down>> (integers per site)
          Exts       \* set of external fields <<spin up, spin down>>

VARIABLES c, stage, n0, n, vext, vhxc, veff, sv, iter, orbs, nout, en, mu, hist
vars == <<c, n0, stage, n, vext, vhxc, veff, sv, iter, orbs, nout, en, mu, hist>>

Take(p, k) == FInt(SubSeq(k, 1, p))
Act(op) == hist' = Append(hist, op)

Init == /\ \E k \in Configs : c = [k EXCEPT !.nuc = Take(k.pol, k.nuc)]
        /\ \E d \in Dens : n = Take(c.pol, d)
        /\ n0 = n
        /\ \E w \in Exts : vext = Take(c.pol, w)
        /\ stage = "n" /\ vhxc = FZero(c.pol) /\ veff = FZero(c.pol) /\ sv = FZero(c.pol)
        /\ iter = FALSE /\ orbs = <<>> /\ nout = <<>> /\ en = <<>> /\ mu = Zero /\ hist = <<>>
Hxc == /\ stage = "n" /\ vhxc' = Vhxc(c, n) /\ stage' = "hxc" /\ Act("hxc")
       /\ UNCHANGED <<c, n0, n, vext, veff, sv, iter, orbs, nout, en, mu>>
SetV == /\ stage \in {"n", "hxc"}
        /\ veff' = FAdd(FAdd(c.nuc, vext), vhxc) /\ sv' = veff' /\ stage' = "v" /\ Act("setv")
        /\ UNCHANGED <<c, n0, n, vext, vhxc, iter, orbs, nout, en, mu>>
SetExt == /\ stage = "hxc"              \* a potential of the caller's own
          /\ sv' = FSub(FMirror(FScale(Q(2), vext)), c.nuc) /\ stage' = "v" /\ Act("setext")
          /\ UNCHANGED <<c, n0, n, vext, vhxc, veff, iter, orbs, nout, en, mu>>
Dens1(it, op) == /\ stage = "v" /\ iter' = it
        /\ orbs' = Solve(c, sv, it) /\ nout' = Density(c, orbs') /\ stage' = "d" /\ Act(op)
        /\ UNCHANGED <<c, n0, n, vext, vhxc, veff, sv, en, mu>>
Replace == /\ stage = "d" /\ n' = nout /\ stage' = "t" /\ Act("take")
        /\ UNCHANGED <<c, n0, vext, vhxc, veff, sv, iter, orbs, nout, en, mu>>
EnergyA == /\ stage \in {"d", "t"}
        /\ en' = Energy(c, n, orbs, sv, vext, vhxc) /\ mu' = ChemPot(c, orbs)
        /\ stage' = "e" /\ Act("energy")
        /\ UNCHANGED <<c, n0, n, vext, vhxc, veff, sv, iter, orbs, nout>>
Next == \/ Hxc \/ SetV \/ SetExt
        \/ Dens1(FALSE, "calc")          \* direct solve requested
        \/ Dens1(FALSE, "iter-far")      \* refinement requested but far from convergence
        \/ Dens1(TRUE, "iter-near")      \* refinement, close to convergence
        \/ Replace \/ EnergyA
Spec == Init /\ [][Next]_vars

(* the density carries the electrons of the configuration *)
Electrons4(k, s) == ISum([r \in Rows(k) |-> k.n4[r][s]])
Conserves == stage \in {"d", "t", "e"} =>
   \A s \in Cols(c) : QSum(nout[s]) = QF(Electrons4(c, s), 4)
(* kinetic energy of the abstract orbitals: 1+m (3/2+m refined) per electron *)
KineticSum == stage = "e" => en.Ts = QSum([r \in Rows(c) |->
   QMul(QF(ISum(c.n4[r]), 4), QAdd(Q(r), IF iter THEN Half ELSE Zero))])
(* a bare (non-interacting, field-free) calculation at its own density is   *)
(* the eigenvalue sum                                                       *)
BareSum == (stage = "e" /\ n = nout /\ veff = sv /\ ~c.sym /\ vhxc = FZero(c.pol) /\ vext = FZero(c.pol)
            /\ c.type = "ni") => en.Et = QSum(en.Eks)
(* with a symmetric configuration everything derived is symmetric *)
SymPure == c.sym => nout = <<>> \/ FMirror(nout) = nout
HxcShift == (c.type = "ni") => vhxc = FZero(c.pol)

Emit == stage = "e" => PrintT("@@" \o ToJson(
  [c |-> c, n |-> n, vext |-> vext, vhxc |-> vhxc, sv |-> sv, orbs |-> orbs, nout |-> nout,
   en |-> en, mu |-> mu, hist |-> hist, xv |-> VFun(XF, n), cv |-> VFun(CF, n), hv |-> VHartree(n),
   xe |-> EpsFun(XF, n), ce |-> EpsFun(CF, n),
   hmat |-> HMat, n0 |-> n0,
   xv0 |-> VFun(XF, n0), cv0 |-> VFun(CF, n0), hv0 |-> VHartree(n0), ex0 |-> EFun(XF, n0), ec0 |-> EFun(CF, n0)]))

(* ------------------------------------------------------------- instances *)
Nuc1 == << <<-9, -2, -4, -3, -6, 1>>, <<-3, -5, -8, 0, -1, -7>> >>
Cf(t, p, sy, nm, k4, a, b) == [type |-> t, pol |-> p, sym |-> sy, nmo |-> nm, n4 |-> k4,
                               za |-> a, zb |-> b, nuc |-> Nuc1]
(* strongly attractive fields: energies of thousands *)
Nuc2 == << <<-9000, -2000, -4100, -3000, -6003, 1000>>, <<-3000, -5200, -8000, 0, -1000, -7001>> >>
Heavy == { [Cf("ni", 1, FALSE, << <<2>>, <<1>> >>, << <<16>>, <<16>> >>, 3, 1) EXCEPT !.nuc = Nuc2],
           [Cf("dft", 2, FALSE, << <<2, 1>> >>, << <<8, 4>> >>, 3, 0) EXCEPT !.nuc = Nuc2],
           [Cf("dft", 1, FALSE, << <<2>> >>, << <<11>> >>, 4, 1) EXCEPT !.nuc = Nuc2] }
SomeConfigs == Heavy \cup
  UNION {{ Cf(t, 1, sy, << <<2>> >>, << <<16>> >>, 4, 1),
           Cf(t, 1, sy, << <<1>>, <<1>> >>, << <<8>>, <<16>> >>, 3, 3),
           Cf(t, 1, sy, << <<2>>, <<1>> >>, << <<11>>, <<6>> >>, 2, 1),
           Cf(t, 2, sy, << <<2, 1>> >>, << <<8, 4>> >>, 3, 0),
           Cf(t, 2, sy, << <<1, 0>> >>, << <<4, 0>> >>, 1, 0),
           Cf(t, 2, sy, << <<0, 2>> >>, << <<0, 7>> >>, 0, 2),
           Cf(t, 2, sy, << <<2, 1>>, <<1, 1>> >>, << <<8, 3>>, <<8, 5>> >>, 4, 3)
         } : t \in {"ni", "dft"}, sy \in BOOLEAN}
SomeDens == { << <<1, 0, 2, 3, 0, 1>>, <<0, 4, 1, 0, 2, 1>> >>, << <<3, 3, 0, 1, 1, 0>>, <<2, 0, 0, 5, 0, 1>> >> }
SomeExts == { << <<0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0>> >>, << <<1, -3, 0, 2, -8, 4>>, <<0, 5, -2, -1, 3, -6>> >> }
=============================================================================
