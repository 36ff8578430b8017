------------------------------- MODULE PartOps -------------------------------
(***************************************************************************)
(* C17, C19, C20, C21, C22.  One partition calculation, step by step: load  *)
(* fragment densities, evaluate the fragments, mirror (when symmetric), add *)
(* up the promolecule, share it out, build the partition potential and the  *)
(* energies.  A program is the sequence of steps; every quantity is a       *)
(* function of the state in which its step ran, so a program that changes   *)
(* the densities between two steps shows which state each result belongs to.*)
(***************************************************************************)
EXTENDS PartModel

CONSTANTS Configs, Dens
VARIABLES p, d, prog, pc, n, orbs, v, vx, en, na, nb, nf, q, vp, pe
vars == <<p, d, prog, pc, n, orbs, v, vx, en, na, nb, nf, q, vp, pe>>

Put(f) == FScale(IF IsOverlap(p) THEN <<1, 64>> ELSE One, FInt(IF p.pol = 2 THEN f ELSE << [i \in Sites |-> f[1][i] + f[2][i]] >>))
Init == /\ \E k \in Configs : /\ p = k.p /\ d \in k.dens /\ prog \in {SelectSeq(g, LAMBDA x : x # "mirror" \/ k.p.absym) : g \in k.progs}
        /\ pc = 1 /\ n = <<>> /\ orbs = <<>> /\ v = <<>> /\ vx = <<>> /\ en = <<>>
        /\ na = <<>> /\ nb = <<>> /\ nf = <<>> /\ q = <<>> /\ vp = <<>> /\ pe = <<>>
Doing(x) == pc <= Len(prog) /\ prog[pc] = x /\ pc' = pc + 1 /\ UNCHANGED <<p, d, prog>>
(* densities: those given, side 2 mirroring side 1 when symmetric *)
Given(r) == TLCEval([i \in Fr(p) |-> IF i \in Leaders(p) THEN Put(Dens[d[r]][i]) ELSE FMirror(Put(Dens[d[r]][Source(p, i)]))])
VextOf(i) == FScale(QF(i, 2), FFlip(PF(p, 3 - Side(p, i))))        \* any external field
Load(r) == /\ n' = Given(r)
           /\ UNCHANGED <<orbs, v, vx, en, na, nb, nf, q, vp, pe>>
(* orbitals of every fragment in its own potential *)
Solve1 == /\ Doing("solve")
          /\ v' = TLCEval([i \in Leaders(p) |-> FAdd(FAdd(Nuc(p, i), VextOf(i)), Vhxc(Cfg(p, i), n[i]))])
          /\ orbs' = TLCEval([i \in Leaders(p) |-> Solve(Cfg(p, i), v'[i], FALSE)])
          /\ vx' = TLCEval([i \in Leaders(p) |-> Vhxc(Cfg(p, i), n[i])])
          /\ UNCHANGED <<n, en, na, nb, nf, q, vp, pe>>
FragEnergy == /\ Doing("fenergy")
          /\ LET e(i) == LET l == IF i \in Leaders(p) THEN i ELSE Source(p, i)
                         IN  Energy(Cfg(p, l), n[l], orbs[l], v[l], VextOf(l), vx[l])
             IN  en' = TLCEval([i \in Fr(p) |-> e(i)])
          /\ UNCHANGED <<n, orbs, v, vx, na, nb, nf, q, vp, pe>>
Mirror1 == /\ Doing("mirror") /\ UNCHANGED <<n, orbs, v, vx, en, na, nb, nf, q, vp, pe>>
Proto == /\ Doing("proto") /\ na' = Frac(p, n, 1) /\ nb' = Frac(p, n, 2) /\ nf' = NF(p, n)
         /\ UNCHANGED <<n, orbs, v, vx, en, q, vp, pe>>
CalcQ == /\ Doing("q") /\ q' = Shares(p, n) /\ UNCHANGED <<n, orbs, v, vx, en, na, nb, nf, vp, pe>>
(* Euler equation: a fragment's kinetic potential is the highest occupied   *)
(* level of all fragments minus its effective potential                     *)
TopLevel == QMaxSeq([j \in 1..(IF p.absym THEN NFr(p) \div 2 ELSE NFr(p)) |-> ChemPot(Cfg(p, j), orbs[j])])
KinInversion(i) ==
  Let1(<<VtInverted(p, n), FSub(FConst(p.pol, TopLevel), IF i \in Leaders(p) THEN v[i] ELSE FMirror(v[Source(p, i)]))>>,
       LAMBDA z : FSub(z[1], z[2]))
(* kinetic energy density of a fragment's orbitals: 1 + m per electron      *)
KedOf(i) == Let1(Cfg(p, i), LAMBDA c :
   [x \in Sites |-> QSum([s \in Cols(c) |-> SumRows(c, LAMBDA r :
      QMulI(r, SolverDens(orbs[i][r][s], c.n4[r][s], Cap(c.pol, r - 1))[x]))])])
Ked(i) == IF i \in Leaders(p) THEN KedOf(i) ELSE Let1(KedOf(Source(p, i)), LAMBDA k : [x \in Sites |-> k[Mirror[x]]])
FieldKin ==
  CASE p.kin = "none" -> [x \in Sites |-> Zero]
    [] p.kin = "vonweiz" -> EpField(p, n, LAMBDA k : VW(Total(k)))
    [] p.kin = "inversion" ->
         Let1(<<TShares(p, n), Total(NF(p, n)), tsInverted(p, n), [i \in Fr(p) |-> Ked(i)], [i \in Fr(p) |-> Total(n[i])]>>,
           LAMBDA z : [x \in Sites |-> QSub(QDiv0(z[3][x], z[2][x]),
              QSum([i \in Fr(p) |-> QMul(z[1][i][x], QDiv0(z[4][i][x], z[5][i][x]))]))])
    [] OTHER -> EpField(p, n, LAMBDA k : EpsFun(KF, k))
Parts(i) == Let1(VpHxc(p, n, i), LAMBDA hx :
  [pot |-> VpPot(p, i), kin |-> IF p.kin = "inversion" THEN KinInversion(i) ELSE VpKin(p, n, i), h |-> VpH(p, n, i), x |-> VpX(p, n, i), c |-> VpC(p, n, i),
   ha |-> hx.a, hb |-> hx.b, hc |-> hx.c])
Whole(f, g(_)) == Assemble(p, q, [i \in Fr(p) |-> g(f[i])])
Potential == /\ Doing("vp")
  /\ vp' = Let1([i \in Fr(p) |-> Parts(i)], LAMBDA f :
       [frag |-> f,
            pot |-> Whole(f, LAMBDA x : x.pot), kin |-> Whole(f, LAMBDA x : x.kin), h |-> Whole(f, LAMBDA x : x.h),
            x |-> Whole(f, LAMBDA x : x.x), c |-> Whole(f, LAMBDA x : x.c), ha |-> Whole(f, LAMBDA x : x.ha),
            hb |-> Whole(f, LAMBDA x : x.hb), hc |-> Whole(f, LAMBDA x : x.hc),
            s |-> IF IsOverlap(p) THEN Overlap(p, n) ELSE Zero])
  /\ UNCHANGED <<n, orbs, v, vx, en, na, nb, nf, q, pe>>
PartEnergy(iso) ==
  /\ LET b == PEnergy(p, n, en, iso)
         w(f(_)) == Weighted(p, Fr(p), f)
         eks(i) == QSum(en[i].Eks)
     IN  pe' = TLCEval([e |-> b, Eksf |-> [s \in 1..p.pol |-> w(LAMBDA i : en[i].Eks[s])],
            Vhxcf |-> IF Interacts(p) THEN w(LAMBDA i : en[i].Vhxc) ELSE Zero,
            s |-> IF IsOverlap(p) THEN Overlap(p, n) ELSE Zero,
            dsdn |-> [i \in Fr(p) |-> IF IsOverlap(p) THEN DSdn(p, n, i) ELSE FZero(p.pol)],
            ehcor |-> IF p.hxc = "overlap_hxc" THEN EhCor(p, n) ELSE Zero,
            fh |-> IF Interacts(p) THEN EpField(p, n, LAMBDA k : FScale(Half, VHartree(k))[1]) ELSE <<>>,
            fx |-> IF Interacts(p) THEN EpField(p, n, LAMBDA k : EpsFun(XF, k)) ELSE <<>>,
            fc |-> IF Interacts(p) THEN EpField(p, n, LAMBDA k : EpsFun(CF, k)) ELSE <<>>,
            fk |-> FieldKin,
            iso |-> iso])
  /\ UNCHANGED <<n, orbs, v, vx, en, na, nb, nf, q, vp>>
Next == \/ (Doing("load1") /\ Load(1)) \/ (Doing("load2") /\ Load(2))
        \/ Solve1 \/ FragEnergy \/ Mirror1 \/ Proto \/ CalcQ \/ Potential
        \/ (Doing("energy") /\ PartEnergy(FALSE)) \/ (Doing("isoenergy") /\ PartEnergy(TRUE))
Spec == Init /\ [][Next]_vars
Done == pc > Len(prog)
(* ------------------------------------------------------------------ laws *)
(* weights of one side add up to one orientation's share *)
WeightsAddUp == \A s \in {1, 2} : QMul(Flips(p), QSumOf(Of(p, s), [i \in Fr(p) |-> Scale(p, i)])) = One
ElectronsAddUp == Done =>
  Electrons(nf) = QMul(Flips(p), QSum([i \in Fr(p) |-> QMul(Scale(p, i), Electrons(n[i]))]))
SharesAddUp == Done => LET t == WithFlip(p, FSumOf(p, Fr(p), q)) IN
  \A s \in 1..p.pol : \A x \in Sites : t[s][x] = IF nf[s][x] = Zero THEN Zero ELSE One
SpinPure == (p.ess /\ vp # <<>>) => FFlip(nf) = nf /\ FFlip(vp.pot) = vp.pot /\ FFlip(vp.ha) = vp.ha
MirrorPure == p.absym => /\ nf = <<>> \/ (nb = FMirror(na))
                         /\ q = <<>> \/ \A i \in Of(p, 2) : q[i] = FMirror(q[Source(p, i)])
                         /\ vp = <<>> \/ (FMirror(vp.ha) = vp.ha /\ FMirror(vp.kin) = vp.kin)
EpBalance == ~Done \/ pe.iso \/ ~Interacts(p) \/ p.hxc # "exact"
  \/ pe.e.Ep_hxc = QSum(<<QSub(EHartree(nf), pe.e.Ehf), QSub(EFun(XF, nf), pe.e.Exf), QSub(EFun(CF, nf), pe.e.Ecf)>>)
(* the fields integrate to the energies: sum over sites of density times    *)
(* energy density                                                           *)
FieldsIntegrate == ~Done \/ pe.iso \/ ~Interacts(p) \/
  (Dot(Total(nf), pe.fh) = pe.e.h /\ Dot(Total(nf), pe.fx) = pe.e.x /\ Dot(Total(nf), pe.fc) = pe.e.c)
(* an undivided molecule has no partition terms of kinetic or hxc kind *)
LoneFragment == (vp # <<>> /\ ~Ens(p) /\ ~p.ess /\ ~p.absym /\ n[2] = FZero(p.pol) /\ Len(prog) < 10)
   => vp.kin = FScale(Zero, vp.kin) /\ vp.ha = FScale(Zero, vp.ha)

Emit == Done => PrintT("@@" \o ToJson(
  [p |-> p, prog |-> prog, given |-> [r \in {1, 2} |-> [i \in Leaders(p) |-> Put(Dens[d[r]][i])]],
   ext |-> [i \in Leaders(p) |-> VextOf(i)], scale |-> [i \in Fr(p) |-> Scale(p, i)],
   lmat |-> IF p.kin = "vonweiz" THEN LMat ELSE <<>>, wsq |-> IF p.kin = "vonweiz" THEN WSq ELSE <<>>,
   na |-> na, nb |-> nb, nf |-> nf, q |-> q, vp |-> vp, pe |-> pe, en |-> en, hmat |-> HMat]))

(* ------------------------------------------------------------- instances *)
NucA == <<-9, -2, -4, -3, -6, 1>>
NucB == <<-3, -5, -8, 0, -1, -7>>
M1(nm, k4) == [nmo |-> nm, n4 |-> k4]
Closed == M1(<< <<1>> >>, << <<8>> >>)
Closed2 == M1(<< <<2>>, <<1>> >>, << <<16>>, <<16>> >>)
Open1 == M1(<< <<1, 0>> >>, << <<4, 0>> >>)
Open2 == M1(<< <<1, 1>> >>, << <<4, 4>> >>)
Open3 == M1(<< <<2, 1>>, <<1, 1>> >>, << <<8, 4>>, <<8, 8>> >>)
Empty2 == M1(<< <<1, 0>> >>, << <<0, 0>> >>)
MC(t, pl, sy, ab, es, kn, hx, za, zb, nu, ma, mb) ==
  [type |-> t, pol |-> pl, sym |-> sy, absym |-> ab, ess |-> es, kin |-> kn, hxc |-> hx,
   za |-> za, zb |-> zb, nu |-> nu, mem |-> <<ma, mb>>,
   nuc |-> IF ab THEN <<NucA, [i \in Sites |-> NucA[Mirror[i]]]>> ELSE <<NucA, NucB>>]
None1 == <<8, 8>>
(* densities per fragment a, A, b, B (two spins, integers or 64ths) *)
D1 == << << <<1, 0, 2, 3, 0, 1>>, <<0, 4, 1, 0, 2, 1>> >>, << <<3, 3, 0, 1, 1, 0>>, <<2, 0, 0, 5, 0, 1>> >>,
         << <<0, 1, 1, 0, 0, 2>>, <<1, 0, 3, 0, 0, 2>> >>, << <<2, 2, 0, 4, 0, 1>>, <<0, 1, 0, 0, 0, 3>> >> >>
D2 == << << <<2, 0, 0, 1, 1, 3>>, <<1, 0, 2, 2, 0, 0>> >>, << <<0, 1, 2, 0, 3, 1>>, <<3, 0, 1, 1, 1, 0>> >>,
         << <<4, 0, 1, 0, 1, 1>>, <<0, 0, 2, 1, 0, 3>> >>, << <<1, 0, 3, 1, 0, 2>>, <<2, 1, 0, 0, 0, 1>> >> >>
D0 == << << <<1, 0, 2, 3, 0, 1>>, <<0, 4, 1, 0, 2, 1>> >>, << <<0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0>> >>,
         << <<0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0>> >>, << <<0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0>> >> >>
(* totals of both sides are four times squares, whatever the mixing ratio: *)
(* the overlap is rational                                                 *)
Sa == <<1, 4, 0, 1, 9, 4>>
Sb == <<4, 1, 1, 0, 1, 1>>
K(u, s) == [i \in Sites |-> u * s[i]]
D3 == << <<K(1, Sa), K(3, Sa)>>, <<K(4, Sa), K(0, Sa)>>, <<K(2, Sb), K(2, Sb)>>, <<K(3, Sb), K(1, Sb)>> >>
D4 == << <<K(2, Sb), K(2, Sb)>>, <<K(1, Sb), K(3, Sb)>>, <<K(0, Sa), K(4, Sa)>>, <<K(3, Sa), K(1, Sa)>> >>
(* ensembles: lower members t of any shape, upper ones filling up to four   *)
(* times squares at mixing (1-nu : nu) = (wl : wu), so that the members of   *)
(* one side differ in shape and size while the overlap stays rational        *)
Fill(t, s, wl, wu) == [i \in Sites |-> (4 * (wl + wu) * s[i] - wl * t[i]) \div wu]
Part2(t, r) == << [i \in Sites |-> (t[i] * r) \div 4], [i \in Sites |-> t[i] - (t[i] * r) \div 4] >>
Ta == <<1, 7, 0, 4, 12, 1>>
Tb == <<4, 1, 7, 0, 1, 4>>
Tc == <<4, 1, 5, 0, 1, 4>>
Pair(t, s, wl, wu, r) == << Part2(t, r), Part2(Fill(t, s, wl, wu), 4 - r) >>
D6 == Pair(Ta, Sa, 1, 1, 1) \o Pair(Tb, Sb, 1, 1, 3)
D7 == Pair(Tb, Sb, 1, 1, 2) \o Pair(Ta, Sa, 1, 1, 0)
D8 == Pair(Ta, Sa, 3, 1, 1) \o Pair(Tb, Sb, 1, 3, 3)
D9 == Pair(Tc, Sb, 3, 1, 4) \o Pair(Ta, Sa, 1, 3, 2)
(* densities for the von Weizsaecker functional: squares that add up to     *)
(* squares, times a common factor per spin                                  *)
Sq(c, up, down) == << [x \in Sites |-> up * c[x] * c[x]], [x \in Sites |-> down * c[x] * c[x]] >>
Ca == <<3, 4, 0, 5, 12, 1>>   \* 3-4-5, 5-12-13
Cb == <<4, 3, 5, 12, 5, 0>>
Cm == <<1, 5, 7, 7, 3, 17>>   \* with its own mirror image twice a square
E1 == <<2, 2, 3, 2, 0, 1>>    \* four squares adding up to twice a square
E2 == <<2, 8, 2, 8, 1, 1>>
E3 == <<1, 2, 1, 0, 4, 0>>
E4 == <<3, 0, 2, 2, 1, 0>>
(* mirrored ensembles: sums over both mirror images *)
F1 == <<2, 3, 2, 1, 4, 4>>
F2 == <<1, 4, 3, 0, 3, 1>>
W1 == << Sq(Ca, 1, 2), Sq(Cb, 1, 2) >>
Cc == <<3, 4, 12, 5, 8, 6>>
Cd == <<4, 3, 5, 12, 6, 8>>
W2 == << Sq(Cc, 1, 0), Sq(Cd, 0, 1) >>
W3 == << Sq(Cm, 1, 0) >>
W4 == << Sq(E1, 1, 1), Sq(E2, 1, 1), Sq(E3, 1, 1), Sq(E4, 1, 1) >>
W5 == << Sq(E4, 2, 1), Sq(E1, 2, 1), Sq(E2, 2, 1), Sq(E3, 2, 1) >>
W6 == << Sq(F1, 1, 1), Sq(F2, 1, 1) >>
W7 == << Sq(F2, 3, 0), Sq(F1, 3, 0) >>
SomeDens == <<D1, D2, D3, D4, D0, D6, D7, D8, D9, W1, W2, W3, W4, W5, W6, W7>>
Squares(nu) == IF nu = None1 THEN {<<3, 4>>, <<4, 3>>}
               ELSE IF nu = <<4, 4>> THEN {<<6, 7>>, <<7, 6>>, <<3, 6>>} ELSE {<<8, 9>>, <<9, 8>>}

Full == <<"load1", "solve", "fenergy", "mirror", "proto", "q", "vp", "energy">>
Again == Full \o <<"load2", "fenergy", "mirror", "proto", "q", "energy">>
(* the inverter's energy is that of its last inversion *)
Twice == Full \o <<"load2", "solve", "fenergy", "mirror", "proto", "q", "vp", "energy">>
EnergyFirst == <<"load1", "solve", "fenergy", "mirror", "proto", "q", "energy", "vp">>
Iso == <<"load1", "solve", "fenergy", "mirror", "proto", "q", "isoenergy">>
Cs(c, ds, ps) == [p |-> c, dens |-> ds, progs |-> ps]
(* member pairs of the two sides *)
Sides(pl, e) ==
  IF pl = 1 THEN IF e THEN { << <<Closed, Closed2>>, <<Closed2, Closed>> >> }
                 ELSE { << <<Closed>>, <<Closed2>> >> }
  ELSE IF e THEN { << <<Open1, Open2>>, <<Open3, Open1>> >>, << <<Open1, Empty2>>, <<Open1, Empty2>> >> }
       ELSE { << <<Open2>>, <<Open3>> >> }
Nus == { None1, <<4, 4>>, <<2, 6>>, <<8, 3>>, <<5, 8>>, <<0, 4>> }
Symm(m) == << m[1], m[1] >>
AllSides == UNION {Sides(x, y) : x \in {1, 2}, y \in BOOLEAN}
GeneralOf(progs, types, nus, sides, dens) ==
  { Cs(MC(t[1], pl, sy, FALSE, es, t[2], t[3], 2, 3, nu, m[1], m[2]), dens, progs) :
      t \in types, pl \in {1, 2}, sy \in BOOLEAN, es \in BOOLEAN, nu \in nus, m \in sides }
General(progs, types) == GeneralOf(progs, types, Nus, AllSides, {<<1, 2>>, <<2, 1>>})
Fits(c) == \A s \in {1, 2} : /\ Len(c.p.mem[s]) = (IF Ens(c.p) THEN 2 ELSE 1)
                             /\ Len(c.p.mem[s][1].nmo[1]) = c.p.pol
MirroredOf(progs, types, nus, sides, dens) ==
  { Cs(MC(t[1], pl, sy, TRUE, es, t[2], t[3], 3, 3, nu, m[1], m[1]), dens, progs) :
      t \in types, pl \in {1, 2}, sy \in {FALSE}, es \in BOOLEAN, nu \in nus, m \in sides }
Mirrored(progs, types) == MirroredOf(progs, types, {None1, <<4, 4>>, <<3, 3>>}, AllSides, {<<1, 2>>})
Overlaps ==
  { Cs(MC("dft", pl, FALSE, FALSE, es, "none", hx, 1, 2, nu, m[1], m[2]), Squares(nu), {Full, EnergyFirst, Again}) :
      hx \in {"overlap_xc", "overlap_hxc"}, pl \in {1, 2}, es \in BOOLEAN, nu \in {None1, <<4, 4>>, <<2, 6>>},
      m \in UNION {Sides(x, y) : x \in {1, 2}, y \in BOOLEAN} }
  \cup
  { Cs(MC("dft", pl, FALSE, TRUE, es, "libxcke", hx, 2, 2, nu, m[1], m[1]), Squares(nu), {Full, EnergyFirst}) :
      hx \in {"overlap_xc", "overlap_hxc"}, pl \in {1, 2}, es \in BOOLEAN, nu \in {None1, <<4, 4>>},
      m \in UNION {Sides(x, y) : x \in {1, 2}, y \in BOOLEAN} }
VW0 == 9
Weiz ==
  { Cs(MC("ni", pl, FALSE, FALSE, es, "vonweiz", "exact", 2, 3, nu, m[1], m[2]),
       IF nu = None1 THEN {<<VW0 + 1, VW0 + 2>>, <<VW0 + 2, VW0 + 1>>} ELSE {<<VW0 + 4, VW0 + 5>>, <<VW0 + 5, VW0 + 4>>}, {Again, Full}) :
      pl \in {1, 2}, es \in BOOLEAN, nu \in {None1, <<4, 4>>}, m \in UNION {Sides(x, y) : x \in {1, 2}, y \in BOOLEAN} }
  \cup
  { Cs(MC("ni", pl, FALSE, TRUE, es, "vonweiz", "exact", 3, 3, nu, m[1], m[1]),
       IF nu = None1 THEN {<<VW0 + 3, VW0 + 3>>} ELSE {<<VW0 + 6, VW0 + 7>>, <<VW0 + 7, VW0 + 6>>}, {Again}) :
      pl \in {1, 2}, es \in BOOLEAN, nu \in {None1, <<4, 4>>}, m \in UNION {Sides(x, y) : x \in {1, 2}, y \in BOOLEAN} }
Invert ==
  { Cs(MC(t, pl, FALSE, FALSE, es, "inversion", "exact", 2, 3, nu, m[1], m[2]), {<<1, 2>>, <<2, 1>>}, {Full, Twice}) :
      t \in {"ni", "dft"}, pl \in {1, 2}, es \in BOOLEAN, nu \in {None1, <<4, 4>>, <<2, 6>>},
      m \in UNION {Sides(x, y) : x \in {1, 2}, y \in BOOLEAN} }
  \cup
  { Cs(MC(t, pl, FALSE, TRUE, es, "inversion", "exact", 3, 3, nu, m[1], m[1]), {<<1, 3>>}, {Full, Twice}) :
      t \in {"ni", "dft"}, pl \in {1, 2}, es \in BOOLEAN, nu \in {None1, <<4, 4>>},
      m \in UNION {Sides(x, y) : x \in {1, 2}, y \in BOOLEAN} }
Lone == { Cs(MC("dft", pl, FALSE, FALSE, FALSE, "libxcke", "exact", 2, 3, None1, m[1], m[2]), {<<5, 1>>}, {Full}) :
      pl \in {1, 2}, m \in UNION {Sides(x, FALSE) : x \in {1, 2}} }
T1 == { <<"dft", "libxcke", "exact">> }
T3 == { <<"dft", "libxcke", "exact">>, <<"dft", "none", "hartree">>, <<"ni", "libxcke", "exact">> }
Only(S) == {c \in S : Fits(c)}
ConfigsEns == Only(General({Full}, T1) \cup Mirrored({Full}, T1))
ConfigsEnergy == Only(General({Again, Iso}, T3) \cup Mirrored({Again, Iso}, T3))
ConfigsPot == Only(General({Full}, T3) \cup Mirrored({Full, EnergyFirst}, T3) \cup Lone)
(* a spin-symmetric ensemble has two spins *)
ConfigsKin == Only(Weiz \cup {k \in Invert : k.p.ess => k.p.pol = 2} \cup General({Again}, {<<"ni", "libxcke", "exact">>, <<"dft", "none", "exact">>}) \cup Mirrored({Again}, {<<"ni", "libxcke", "exact">>}) \cup Lone)
ConfigsHxc == Only(General({Again}, {<<"dft", "none", "exact">>, <<"dft", "none", "hartree">>}) \cup Mirrored({Again}, {<<"dft", "none", "exact">>}) \cup Overlaps)
(* the thorough tier: mixing ratios of both ends, sides of equal and of     *)
(* exchanged members, reloading the same densities, densities of one        *)
(* fragment only, every program                                             *)
MoreNus == Nus \cup { <<4, 0>>, <<0, 8>>, <<8, 0>>, <<0, 0>>, <<7, 1>>, <<3, 5>>, <<6, 6>> }
MoreSides == AllSides \cup
  { << <<Closed, Closed>>, <<Closed2, Closed2>> >>, << <<Closed2>>, <<Closed>> >>,
    << <<Open2, Open3>>, <<Open1, Open2>> >>, << <<Empty2, Open1>>, <<Open3, Empty2>> >>, << <<Open1>>, <<Open1>> >>, << <<Open3>>, <<Open2>> >> }
MorePairs == { <<1, 2>>, <<2, 1>>, <<1, 1>>, <<3, 2>> }
MoreFor(progs, types) == Only(GeneralOf(progs, types, MoreNus, MoreSides, MorePairs)
  \cup MirroredOf(progs, types, {k \in MoreNus : k[1] = k[2]}, MoreSides, {<<1, 2>>, <<2, 1>>, <<2, 4>>}))
MoreEns == MoreFor({Full, Again}, T1) \cup ConfigsEns
MoreEnergy == MoreFor({Again, Iso}, T3) \cup ConfigsEnergy
MorePot == MoreFor({Full, EnergyFirst}, T3) \cup ConfigsPot
MoreKin == MoreFor({Again, EnergyFirst}, {<<"ni", "libxcke", "exact">>, <<"dft", "none", "exact">>})
  \cup Only({[k EXCEPT !.dens = @ \ {<<3, 2>>}] :     \* no site without any density
        k \in {x \in MoreFor({Full, Twice}, {<<"ni", "inversion", "exact">>}) : ~x.p.sym /\ ~x.p.absym /\ (x.p.ess => x.p.pol = 2)
                /\ (x.p.nu = None1 \/ \A s \in {1, 2} : x.p.nu[s] \in 1..7)}}) \cup ConfigsKin
MoreHxc == MoreFor({Again, EnergyFirst}, {<<"dft", "none", "exact">>, <<"dft", "none", "hartree">>}) \cup ConfigsHxc
=============================================================================
