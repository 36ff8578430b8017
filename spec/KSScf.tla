-------------------------------- MODULE KSScf -------------------------------
(***************************************************************************)
(* C14.  The Kohn-Sham self-consistency loop.                               *)
(*                                                                          *)
(* A history is a sequence of calls of the loop, each with its own options. *)
(* A fresh call starts from the orbitals of the bare potential; a           *)
(* continued one from the present density.  Every cycle:                    *)
(*    potential of the current density  ->  orbitals in it (refined rather  *)
(*    than solved anew when refinement is on and the run is continued, or   *)
(*    the last change was below 1 percent)  ->  mixing  ->  energies.       *)
(* The loop stops when the larger of the relative energy and density        *)
(* changes is at most e_tol (and, with auto_tol, has not reached a new      *)
(* minimum for auto_tol_iter cycles), or at the iteration limit.            *)
(*                                                                          *)
(* The limit maxiter allows maxiter-1 or maxiter cycles: `slack' is chosen  *)
(* once; both readings conform.                                             *)
(***************************************************************************)
EXTENDS KSModel

CONSTANTS Configs,   \* [k: configuration, ext: external field or <<>>]
          Runs       \* set of sequences of option records

VARIABLES c, ext, runs, r, slack, phase, n, vhxc, veff, orbs, en, mu,
          cyc, diff, oldE, oldn, mind, notmin, tie, done
vars == <<c, ext, runs, r, slack, phase, n, vhxc, veff, orbs, en, mu,
          cyc, diff, oldE, oldn, mind, notmin, tie, done>>

O == runs[r]
Vext == IF ext = <<>> THEN FZero(c.pol) ELSE ext
Far == <<10, 1>>

Init == /\ \E k \in Configs : c = k.k /\ ext = k.ext /\ runs \in Runs /\ (k.tag = 0 \/ runs[1].tag = 1)
        /\ ~runs[1].cont
        /\ slack \in {0, 1}
        /\ r = 1 /\ phase = "start" /\ n = <<>> /\ vhxc = <<>> /\ veff = <<>> /\ orbs = <<>>
        /\ en = <<>> /\ mu = Zero /\ cyc = 0 /\ diff = Far /\ oldE = Zero /\ oldn = <<>>
        /\ mind = Far /\ notmin = 0 /\ tie = FALSE /\ done = <<>>

Start ==
  /\ phase = "start"
  /\ IF O.cont THEN UNCHANGED <<n, vhxc, veff, orbs>>
     ELSE /\ vhxc' = FZero(c.pol)
          /\ veff' = FAdd(c.nuc, Vext)
          /\ orbs' = Solve(c, veff', FALSE)
          /\ n' = Density(c, orbs')
  /\ cyc' = 0 /\ diff' = Far /\ oldE' = Zero /\ oldn' = FZero(c.pol) /\ mind' = Far /\ notmin' = 0
  /\ phase' = "loop"
  /\ UNCHANGED <<c, ext, runs, r, slack, en, mu, tie, done>>

Wanting == QLessE(O.etol, diff) \/ (O.auto /\ notmin < O.autoiter)
Limit == O.maxiter - 1 + slack
FlipSym(f) == FScale(Half, FAdd(f, FMirror(FFlip(f))))
(* relative changes; a spin column without electrons carries no weight *)
Rel(new, old) ==
  LET S == {s \in Cols(c) : ColAbs(new[s]) # Zero}
      d == [s \in S |-> QDiv(ColAbs(FSub(new, old)[s]), ColAbs(new[s]))]
  IN  CHOOSE q \in {d[s] : s \in S} : \A s \in S : ~QLessE(q, d[s])
Worse(a, b) == IF QLessE(a, b) THEN b ELSE a

Cycle ==
  /\ phase = "loop" /\ Wanting /\ cyc < Limit
  /\ vhxc' = Vhxc(c, n)
  /\ LET v == FAdd(FAdd(c.nuc, Vext), vhxc')
     IN  veff' = IF O.flip THEN FlipSym(v) ELSE v
  /\ orbs' = Solve(c, veff', O.iter /\ (O.cont \/ QLessE(diff, <<1, 100>>)))
  /\ LET m == FMix(O.alpha, n, Density(c, orbs'))
     IN  n' = IF O.flip THEN FlipSym(m) ELSE m
  /\ en' = Energy(c, n', orbs', veff', Vext, vhxc')
  /\ mu' = ChemPot(c, orbs')
  /\ diff' = Worse(QDiv(QAbs(QSub(en'.E, oldE)), QAbs(en'.E)), Rel(n', oldn))
  /\ oldE' = en'.E /\ oldn' = n'
  /\ tie' = (tie \/ (O.auto /\ diff' = mind) \/ diff' = O.etol \/ diff' = <<1, 100>>)
  /\ IF QLessE(diff', mind) THEN mind' = diff' /\ notmin' = 0
     ELSE mind' = mind /\ notmin' = notmin + 1
  /\ cyc' = cyc + 1
  /\ UNCHANGED <<c, ext, runs, r, slack, phase, done>>
Stop ==
  /\ phase = "loop" /\ ~(Wanting /\ cyc < Limit)
  /\ done' = Append(done, [cyc |-> cyc, conv |-> ~Wanting])
  /\ IF r < Len(runs) THEN r' = r + 1 /\ phase' = "start"
     ELSE r' = r /\ phase' = "end"
  /\ UNCHANGED <<c, ext, runs, slack, n, vhxc, veff, orbs, en, mu, cyc, diff, oldE, oldn, mind, notmin, tie>>
Next == Start \/ Cycle \/ Stop
Spec == Init /\ [][Next]_vars

Electrons4(s) == ISum([x \in Rows(c) |-> c.n4[x][s]])
(* mixing conserves the electrons of every spin *)
Conserves == n # <<>> => \A s \in Cols(c) : O.flip \/ QSum(n[s]) = QF(Electrons4(s), 4)
ConservesAll == n # <<>> => Electrons(n) = QF(ISum([s \in Cols(c) |-> Electrons4(s)]), 4)
NonNegative == n # <<>> => \A s \in Cols(c), i \in Sites : QLeq(Zero, n[s][i])
(* the loop never ends early *)
NotEarly == phase = "end" => \A i \in 1..Len(runs) :
              done[i].conv \/ done[i].cyc = runs[i].maxiter - 1 + slack
(* a symmetric calculation never leaves the symmetric densities *)
SymPure == (c.sym /\ n # <<>>) => FMirror(n) = n
FlipPure == (phase = "loop" /\ O.flip /\ cyc > 0) => n = FMirror(FFlip(n))
(* a converged run is a fixed point up to the tolerance *)
Consistent == (phase = "end" /\ done[Len(done)].conv /\ cyc > 0) => ~QLessE(O.etol, diff)

Emit == (phase = "end" /\ ~tie) => PrintT("@@" \o ToJson(
  [c |-> c, ext |-> ext, runs |-> runs, slack |-> slack, n |-> n, vhxc |-> vhxc, veff |-> veff,
   orbs |-> orbs, en |-> en, mu |-> mu, done |-> done, hmat |-> HMat]))

(* ------------------------------------------------------------- instances *)
Nuc1 == << <<-9, -2, -4, -3, -6, 1>>, <<-3, -5, -8, 0, -1, -7>> >>
NucS == << <<-9, -2, -9, -3, -6, -3>>, <<-3, -5, -3, 0, -1, 0>> >>
Ext1 == << <<1, -3, 0, 2, -8, 4>>, <<0, 5, -2, -1, 3, -6>> >>
Tk(p, f) == FInt(SubSeq(f, 1, p))
Cf(t, p, sy, nm, k4, ex, tag) ==
  [k |-> [type |-> t, pol |-> p, sym |-> sy, nmo |-> nm, n4 |-> k4, za |-> 2, zb |-> 3,
          nuc |-> Tk(p, IF sy THEN NucS ELSE Nuc1)],
   ext |-> IF ex THEN Tk(p, Ext1) ELSE <<>>, tag |-> tag]
SomeConfigs ==
  { Cf("dft", 1, FALSE, << <<2>> >>, << <<16>> >>, FALSE, 0),
    Cf("dft", 1, TRUE,  << <<1>>, <<1>> >>, << <<8>>, <<16>> >>, TRUE, 1),
    Cf("dft", 2, FALSE, << <<2, 1>> >>, << <<8, 4>> >>, FALSE, 0),
    Cf("dft", 2, FALSE, << <<1, 0>> >>, << <<4, 0>> >>, FALSE, 1),
    Cf("dft", 2, FALSE, << <<2, 1>>, <<1, 1>> >>, << <<8, 3>>, <<8, 6>> >>, TRUE, 1),
    Cf("dft", 2, TRUE,  << <<1, 1>> >>, << <<4, 2>> >>, FALSE, 1),
    Cf("ni",  2, FALSE, << <<1, 2>> >>, << <<4, 6>> >>, TRUE, 0),
    Cf("ni",  1, FALSE, << <<2>> >>, << <<12>> >>, FALSE, 1) }
Op(al, et, mx, it, ct, fl, au, ai, tag) ==
  [alpha |-> al, etol |-> et, maxiter |-> mx, iter |-> it, cont |-> ct, flip |-> fl,
   auto |-> au, autoiter |-> ai, tag |-> tag]
H2 == <<1, 2>>
T1 == <<31, 100>>
T2 == <<13, 1000>>
SomeRuns ==
  { << Op(a, et, mx, it, FALSE, FALSE, FALSE, 3, 1) >> :
       a \in {H2, One}, et \in {T1, T2}, mx \in {1, 2, 3, 5}, it \in BOOLEAN }
  \cup { << Op(<<1, 4>>, et, 4, TRUE, FALSE, FALSE, FALSE, 3, 0) >> : et \in {T1, <<71, 100>>} }
  \cup { << Op(H2, <<7, 10>>, mx, TRUE, FALSE, TRUE, FALSE, 3, 0) >> : mx \in {2, 3, 4} }
  \cup { << Op(One, et, 6, it, FALSE, FALSE, TRUE, ai, 0) >> : et \in {T1, T2}, ai \in {1, 2}, it \in BOOLEAN }
  \cup { << Op(a, T2, mx, TRUE, FALSE, FALSE, FALSE, 3, 1), Op(H2, et, my, it, TRUE, FALSE, FALSE, 3, 1) >> :
       a \in {H2, One}, mx \in {2, 3}, my \in {1, 2, 3}, it \in BOOLEAN, et \in {T1, T2} }
  \cup { << Op(H2, T2, 3, TRUE, FALSE, FALSE, FALSE, 3, 1), Op(One, T1, 3, TRUE, FALSE, FALSE, FALSE, 3, 1) >> }
=============================================================================
