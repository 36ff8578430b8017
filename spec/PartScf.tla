------------------------------- MODULE PartScf -------------------------------
(***************************************************************************)
(* C23 (and C18 along trajectories).  The self-consistency loop of a        *)
(* partition calculation; a history is a sequence of calls of the loop.     *)
(*                                                                          *)
(* A fresh call starts every fragment from the orbitals of its bare nuclear *)
(* potential; a continued one from the present densities.  Every cycle:     *)
(*   Hartree-exchange-correlation potential of every fragment's density ->  *)
(*   partition potential (none when isolated) -> external potential of the  *)
(*   fragments that are not frozen -> orbitals -> mixing by the fragment's  *)
(*   own fraction -> fragment energies -> mirror image (when symmetric) ->  *)
(*   promolecule and shares -> energies -> convergence.                     *)
(* `isolated' stays as it was unless the call sets it.                      *)
(***************************************************************************)
EXTENDS PartModel

CONSTANTS Configs
VARIABLES p, runs, r, phase, iso, n, vext, vhxc, veff, orbs, en, mu, nf, q, vp, fvp, pe,
          cyc, diff, oldE, oldnf, mind, notmin, tie, done
vars == <<p, runs, r, phase, iso, n, vext, vhxc, veff, orbs, en, mu, nf, q, vp, fvp, pe,
          cyc, diff, oldE, oldnf, mind, notmin, tie, done>>
O == runs[r]
Far == <<10, 1>>
Ld == Leaders(p)
Alpha(i) == O.alpha[IF Len(O.alpha) = 1 THEN 1 ELSE Side(p, i)]
Frozen(i) == IF Side(p, i) = 1 THEN O.fa ELSE O.fb
(* what every fragment holds, given what the leaders hold *)
Spread(f) == TLCEval([i \in Fr(p) |-> IF i \in Ld THEN f[i] ELSE FMirror(f[Source(p, i)])])
Copied(f) == TLCEval([i \in Fr(p) |-> IF i \in Ld THEN f[i] ELSE f[Source(p, i)]])

Init == /\ \E k \in Configs : p = k.p /\ runs \in k.runs
        /\ ~runs[1].cont
        /\ r = 1 /\ phase = "start" /\ iso = FALSE /\ n = <<>> /\ vext = <<>> /\ vhxc = <<>> /\ veff = <<>>
        /\ orbs = <<>> /\ en = <<>> /\ mu = <<>> /\ nf = <<>> /\ q = <<>> /\ vp = <<>> /\ fvp = <<>> /\ pe = <<>>
        /\ cyc = 0 /\ diff = Far /\ oldE = Zero /\ oldnf = <<>> /\ mind = Far /\ notmin = 0
        /\ tie = FALSE /\ done = <<>>

Start ==
  /\ phase = "start"
  /\ iso' = (IF O.iso = "unset" THEN iso ELSE O.iso = "yes")
  /\ IF O.cont THEN UNCHANGED <<n, vext, vhxc, veff, orbs, en, mu>>
     ELSE LET z == TLCEval([i \in Fr(p) |-> FZero(p.pol)])
              v == TLCEval([i \in Ld |-> Nuc(p, i)])
              o == TLCEval([i \in Ld |-> Solve(Cfg(p, i), v[i], O.iter)])
              d == TLCEval([i \in Ld |-> Density(Cfg(p, i), o[i])])
          IN  /\ vext' = z /\ vhxc' = z /\ orbs' = o
              /\ veff' = Spread(v) /\ n' = Spread(d)
              /\ mu' = Copied([i \in Ld |-> ChemPot(Cfg(p, i), o[i])])
              /\ en' = Copied([i \in Ld |-> EnergyD(Cfg(p, i), d[i], o[i], v[i])])
  /\ oldE' = Zero /\ cyc' = 0 /\ diff' = Far /\ mind' = Far /\ notmin' = 0
  /\ phase' = "promolecule"
  /\ UNCHANGED <<p, runs, r, nf, q, vp, fvp, pe, oldnf, tie, done>>
Promolecule ==
  /\ phase = "promolecule"
  /\ nf' = NF(p, n) /\ q' = Shares(p, n) /\ oldnf' = nf'
  /\ phase' = "loop"
  /\ UNCHANGED <<p, runs, r, iso, n, vext, vhxc, veff, orbs, en, mu, vp, fvp, pe, cyc, diff, oldE, mind, notmin, tie, done>>

Wanting == QLessE(O.etol, diff) \/ (O.auto /\ notmin < O.autoiter)
(* the fragment's own part of the partition potential *)
Own(i) == FAdd(FAdd(VpPot(p, i), VpKin(p, n, i)), VpHxc(p, n, i).a)
Rel(new, old) ==
  LET S == {s \in 1..p.pol : ColAbs(new[s]) # Zero}
      d == [s \in S |-> QDiv(ColAbs(FSub(new, old)[s]), ColAbs(new[s]))]
  IN  CHOOSE x \in {d[s] : s \in S} : \A s \in S : ~QLessE(x, d[s])
Worse(a, b) == IF QLessE(a, b) THEN b ELSE a

(* potentials of the present densities *)
Potentials ==
  /\ phase = "loop" /\ Wanting /\ cyc < O.maxiter
  /\ fvp' = TLCEval([i \in Fr(p) |-> IF iso THEN FZero(p.pol) ELSE Own(i)])
  /\ vhxc' = TLCEval([i \in Ld |-> Vhxc(Cfg(p, i), n[i])])
  /\ phase' = "assemble"
  /\ UNCHANGED <<p, runs, r, iso, n, vext, veff, orbs, en, mu, nf, q, vp, pe, cyc, diff, oldE, oldnf, mind, notmin, tie, done>>
Assembly ==
  /\ phase = "assemble"
  /\ vp' = (IF iso THEN FZero(p.pol) ELSE Assemble(p, q, fvp))
  /\ phase' = "embed"
  /\ UNCHANGED <<p, runs, r, iso, n, vext, vhxc, veff, orbs, en, mu, nf, q, fvp, pe, cyc, diff, oldE, oldnf, mind, notmin, tie, done>>
Embed ==
  /\ phase = "embed"
  /\ vext' = Spread([i \in Ld |-> IF Frozen(i) THEN vext[i] ELSE IF O.calc = "sdft" THEN fvp[i] ELSE vp])
  /\ phase' = "solve"
  /\ UNCHANGED <<p, runs, r, iso, n, vhxc, veff, orbs, en, mu, nf, q, vp, fvp, pe, cyc, diff, oldE, oldnf, mind, notmin, tie, done>>
Solving ==
  /\ phase = "solve"
  /\ LET v == TLCEval([i \in Ld |-> FAdd(FAdd(Nuc(p, i), vext[i]), vhxc[i])])
         o == TLCEval([i \in Ld |-> Solve(Cfg(p, i), v[i], O.iter /\ QLessE(diff, <<1, 100>>))])
         d == TLCEval([i \in Ld |-> FMix(Alpha(i), n[i], Density(Cfg(p, i), o[i]))])
     IN  /\ veff' = Spread(v) /\ orbs' = o /\ n' = Spread(d)
         /\ mu' = Copied(TLCEval([i \in Ld |-> ChemPot(Cfg(p, i), o[i])]))
         /\ en' = Copied(TLCEval([i \in Ld |-> EnergyD(Cfg(p, i), d[i], o[i], v[i])]))
  /\ phase' = "share"
  /\ UNCHANGED <<p, runs, r, iso, vext, vhxc, nf, q, vp, fvp, pe, cyc, diff, oldE, oldnf, mind, notmin, tie, done>>
Sharing ==
  /\ phase = "share"
  /\ nf' = NF(p, n) /\ q' = Shares(p, n)
  /\ pe' = PEnergy(p, n, en, iso)
  /\ phase' = "measure"
  /\ UNCHANGED <<p, runs, r, iso, n, vext, vhxc, veff, orbs, en, mu, vp, fvp, cyc, diff, oldE, oldnf, mind, notmin, tie, done>>
Measure ==
  /\ phase = "measure"
  /\ diff' = Worse(QDiv(QAbs(QSub(pe.E, oldE)), QAbs(pe.E)), Rel(nf, oldnf))
  /\ oldE' = pe.E /\ oldnf' = nf
  /\ tie' = (tie \/ (O.auto /\ diff' = mind) \/ diff' = O.etol \/ diff' = <<1, 100>>)
  /\ IF QLessE(diff', mind) THEN mind' = diff' /\ notmin' = 0
     ELSE mind' = mind /\ notmin' = notmin + 1
  /\ cyc' = cyc + 1
  /\ phase' = "loop"
  /\ UNCHANGED <<p, runs, r, iso, n, vext, vhxc, veff, orbs, en, mu, nf, q, vp, fvp, pe, done>>
Stop ==
  /\ phase = "loop" /\ ~(Wanting /\ cyc < O.maxiter)
  /\ done' = Append(done, [cyc |-> cyc, conv |-> ~QLessE(O.etol, diff), cut |-> QLessE(O.etol, diff) /\ cyc = O.maxiter])
  /\ IF r < Len(runs) THEN r' = r + 1 /\ phase' = "start" ELSE r' = r /\ phase' = "end"
  /\ UNCHANGED <<p, runs, iso, n, vext, vhxc, veff, orbs, en, mu, nf, q, vp, fvp, pe,
                 cyc, diff, oldE, oldnf, mind, notmin, tie>>
Next == Start \/ Promolecule \/ Potentials \/ Assembly \/ Embed \/ Solving \/ Sharing \/ Measure \/ Stop
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ laws *)
Four(i, s) == LET m == p.mem[Side(p, i)][Member(p, i)] IN QF(ISum([x \in 1..Len(m.nmo) |-> m.n4[x][s]]), 4)
Settled == phase \in {"loop", "end"}
Conserves == n # <<>> => \A i \in Fr(p), s \in 1..p.pol : QSum(n[i][s]) = Four(i, s)
Molecule == (n # <<>> /\ Settled) =>
  Electrons(nf) = QMul(Flips(p), QSum([i \in Fr(p) |-> QMul(Scale(p, i), QSum([s \in 1..p.pol |-> Four(i, s)]))]))
Pair == (p.absym /\ n # <<>> /\ Settled) => /\ nf = FMirror(nf)
                                /\ (vp # <<>> => vp = FMirror(vp))
                                /\ \A i \in Of(p, 2) : n[i] = FMirror(n[Source(p, i)])
NotEarly == phase = "end" => \A i \in 1..Len(runs) : done[i].conv \/ done[i].cyc = runs[i].maxiter
NotLate == phase = "end" => \A i \in 1..Len(runs) : done[i].cyc <= runs[i].maxiter
Isolated == (iso /\ pe # <<>> /\ phase = "end" /\ cyc > 0) => pe.Ep = Zero /\ vp = FZero(p.pol) /\ pe.Et = pe.Ef
FrozenKeeps == \A i \in Fr(p) : (phase = "end" /\ Len(runs) = 1 /\ Frozen(i) /\ i \in Ld) => vext[i] = FZero(p.pol)

Emit == (phase = "end" /\ ~tie) => PrintT("@@" \o ToJson(
  [p |-> p, runs |-> runs, n |-> n, vext |-> vext, veff |-> veff, orbs |-> orbs, en |-> en, mu |-> mu,
   nf |-> nf, na |-> Frac(p, n, 1), nb |-> Frac(p, n, 2), q |-> q, vp |-> vp, fvp |-> fvp, pe |-> pe,
   done |-> done, iso |-> iso, scale |-> [i \in Fr(p) |-> Scale(p, i)]]))

(* ------------------------------------------------------------- instances *)
NucA == <<-9, -2, -4, -3, -6, 1>>
NucB == <<-3, -5, -8, 0, -1, -7>>
M1(nm, k4) == [nmo |-> nm, n4 |-> k4]
Closed == M1(<< <<1>> >>, << <<8>> >>)
Closed2 == M1(<< <<2>>, <<1>> >>, << <<16>>, <<16>> >>)
Open1 == M1(<< <<1, 0>> >>, << <<4, 0>> >>)
Open2 == M1(<< <<1, 1>> >>, << <<4, 4>> >>)
Open3 == M1(<< <<2, 1>>, <<1, 1>> >>, << <<8, 4>>, <<8, 8>> >>)
Empty2 == M1(<< <<1, 0>> >>, << <<0, 0>> >>)
MC(t, pl, sy, ab, es, kn, hx, za, zb, nu, ma, mb) ==
  [type |-> t, pol |-> pl, sym |-> sy, absym |-> ab, ess |-> es, kin |-> kn, hxc |-> hx,
   za |-> za, zb |-> zb, nu |-> nu, mem |-> <<ma, mb>>,
   nuc |-> IF ab THEN <<NucA, [i \in Sites |-> NucA[Mirror[i]]]>> ELSE <<NucA, NucB>>]
None1 == <<8, 8>>
H == <<4, 4>>
C(c, S) == [p |-> c, runs |-> S]
Op(al, et, mx, it, ct, cl, is, fa, fb, au, ai) ==
  [alpha |-> al, etol |-> et, maxiter |-> mx, iter |-> it, cont |-> ct, calc |-> cl, iso |-> is,
   fa |-> fa, fb |-> fb, auto |-> au, autoiter |-> ai]
H2 == <<1, 2>>
A1 == <<H2>>
A2 == <<One, H2>>
A3 == <<H2, One>>
T1 == <<31, 100>>
T2 == <<13, 1000>>
Pl(al, et, mx) == Op(al, et, mx, TRUE, FALSE, "pdft", "unset", FALSE, FALSE, FALSE, 3)
Basic == { << Pl(al, et, mx) >> : al \in {A1, A2}, et \in {T1, T2}, mx \in {1, 2, 3} }
Modes == { << Op(A1, T2, mx, it, FALSE, cl, is, fz[1], fz[2], FALSE, 3) >> :
     mx \in {1, 2, 3}, it \in BOOLEAN, cl \in {"pdft", "sdft"}, is \in {"unset", "yes", "no"},
     fz \in { <<FALSE, FALSE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>> } }
Autos == { << Op(al, et, mx, it, FALSE, "pdft", "unset", FALSE, FALSE, TRUE, ai) >> :
     al \in {A1, A3}, et \in {T1, T2}, mx \in {2, 4}, it \in BOOLEAN, ai \in {1, 2} }
(* isolated fragments first, the molecule from them *)
Docs == { << Op(al, T2, mx, it, FALSE, "pdft", "yes", FALSE, FALSE, FALSE, 3),
             Op(al, et, my, it, ct, cl, "no", FALSE, FALSE, FALSE, 3) >> :
     al \in {A1, A3}, mx \in {2}, my \in {1, 2}, it \in BOOLEAN, ct \in BOOLEAN, cl \in {"pdft", "sdft"}, et \in {T1, T2} }
(* a sticky setting, a thawed fragment, a fresh run after another *)
Seqs == { << Op(A1, T2, 2, TRUE, FALSE, "pdft", i1, f1, FALSE, FALSE, 3),
             Op(A2, T2, my, TRUE, ct, "pdft", "unset", FALSE, f2, FALSE, 3) >> :
     i1 \in {"yes", "unset"}, f1 \in BOOLEAN, f2 \in BOOLEAN, my \in {1, 2}, ct \in BOOLEAN }
Many == Basic \cup Modes \cup Autos \cup Docs \cup Seqs
Few == Basic \cup Autos \cup { x \in Docs : x[2].etol = T2 } \cup { x \in Modes : x[1].maxiter = 2 /\ x[1].iter }
SomeConfigs ==
  { C(MC("dft", 1, FALSE, FALSE, FALSE, "libxcke", "exact", 2, 3, None1, <<Closed>>, <<Closed2>>), Many),
    C(MC("dft", 2, FALSE, FALSE, FALSE, "libxcke", "exact", 2, 3, None1, <<Open3>>, <<Open1>>), Few),
    C(MC("dft", 2, FALSE, TRUE, FALSE, "none", "hartree", 3, 3, None1, <<Open2>>, <<Open2>>), Few),
    C(MC("ni", 2, FALSE, FALSE, TRUE, "libxcke", "exact", 2, 3, None1, <<Open1>>, <<Open2>>), Few),
    C(MC("dft", 1, TRUE, FALSE, FALSE, "none", "exact", 2, 3, None1, <<Closed2>>, <<Closed>>), Few),
    C(MC("dft", 2, FALSE, TRUE, TRUE, "none", "exact", 3, 3, H, <<Empty2, Open1>>, <<Empty2, Open1>>), Few),
    C(MC("dft", 2, FALSE, FALSE, FALSE, "libxcke", "exact", 2, 3, <<4, 2>>, <<Open1, Open2>>, <<Empty2, Open1>>), Few),
    C(MC("dft", 1, FALSE, TRUE, FALSE, "libxcke", "exact", 3, 3, H, <<Closed, Closed2>>, <<Closed, Closed2>>), Few) }
(* deeper: every history in every configuration, and more fragments *)
More ==
  { MC("dft", 2, FALSE, FALSE, TRUE, "libxcke", "exact", 1, 4, <<4, 6>>, <<Open1, Open2>>, <<Open1, Empty2>>),
    MC("dft", 2, FALSE, FALSE, FALSE, "none", "hartree", 2, 3, None1, <<Empty2>>, <<Open3>>),
    MC("dft", 2, TRUE, FALSE, FALSE, "libxcke", "exact", 2, 3, None1, <<Open2>>, <<Open1>>),
    MC("ni", 1, FALSE, FALSE, FALSE, "none", "exact", 2, 3, H, <<Closed, Closed2>>, <<Closed, Closed2>>),
    MC("dft", 2, FALSE, TRUE, FALSE, "libxcke", "exact", 3, 3, H, <<Open1, Open2>>, <<Open1, Open2>>),
    MC("ni", 2, FALSE, TRUE, TRUE, "libxcke", "exact", 3, 3, None1, <<Open3>>, <<Open3>>) }
AllConfigs == { C(c.p, Many) : c \in SomeConfigs } \cup { C(c, Many) : c \in More }
(* symmetric ones only *)
PairConfigs == { C(c.p, Basic \cup Docs \cup { x \in Modes : x[1].maxiter = 2 }) : c \in {d \in SomeConfigs : d.p.absym} }
AllPairs == { C(c.p, Many) : c \in {d \in AllConfigs : d.p.absym} }
=============================================================================
