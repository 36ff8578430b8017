------------------------------ MODULE Symmetry ------------------------------
(***************************************************************************)
(* C29, C30.  Relations between whole calculations.  The state is a         *)
(* calculation (a Kohn-Sham run or a partition run, end to end) together    *)
(* with the relation of its results to those of a base calculation.  An     *)
(* action replaces the calculation by an equivalent description of the same *)
(* physics and updates the relation:                                        *)
(*   Swap      the nuclei exchanged (fields mirrored, fragments exchanged)  *)
(*   SpinX     the spins exchanged                                          *)
(*   Split     doubly occupied orbitals written as two equal spins          *)
(*   Scale     charges * s, lengths / s (non-interacting electrons)         *)
(*   Shift     a constant added to the external potential                   *)
(*   Field     the second nucleus given as an external field                *)
(*   Symm, FlipSym, AbSym   a symmetry the system has is declared           *)
(*   Pad       one more orbital than needed                                 *)
(*   Path      another way (mixing, iterative solving) to convergence       *)
(*   Members, Duplicate, Explicit, LowerOnly, Blend  ensembles rewritten    *)
(*   Reduce    a partition whose second fragment is empty = the molecule    *)
(*   Isolate   an isolated fragment = a Kohn-Sham calculation of its own    *)
(***************************************************************************)
EXTENDS Rat, Json, FiniteSets

CONSTANTS Wanted, Auto, Kind, Depth   \* names and numbers of base calculations, length of words

VARIABLES base, cfg, rel, depth
vars == <<base, cfg, rel, depth>>

(* ------------------------------------------------------------- bases *)
H(x) == QF(x, 2)   \* halves, quarters
F4(x) == QF(x, 4)
KS(za, zb, pol, nmo, n, int, frac) ==
  [kind |-> "ks", za |-> Q(za), zb |-> Q(zb), a |-> QF(4, 5), pol |-> pol, nmo |-> nmo, n |-> n, int |-> int,
   frac |-> frac, sym |-> FALSE, flip |-> FALSE, shift |-> Zero, field |-> Zero, gga |-> FALSE, cycles |-> 6, conv |-> FALSE,
   alpha |-> H(1), iter |-> TRUE]
Mem(nmo, n) == [nmo |-> nmo, n |-> n]
PT(za, zb, pol, A, nua, B, nub) ==
  [kind |-> "part", za |-> Q(za), zb |-> Q(zb), a |-> QF(4, 5), pol |-> pol, A |-> A, B |-> B, nua |-> nua, nub |-> nub,
   int |-> "dft", frac |-> FALSE, ens |-> FALSE, ab |-> FALSE, kin |-> "vonweiz", hxc |-> "exact", calc |-> "pdft",
   iso |-> FALSE, gga |-> FALSE, cycles |-> 5, conv |-> FALSE, alpha |-> H(1), beta |-> H(1), iter |-> TRUE]

One1 == Mem(<<<<1>>>>, <<<<Q(2)>>>>)
Two35 == Mem(<<<<2>>>>, <<<<H(7)>>>>)
U1 == Mem(<<<<1, 0>>>>, <<<<Q(1), Q(0)>>>>)
D1 == Mem(<<<<0, 1>>>>, <<<<Q(0), Q(1)>>>>)
UD == Mem(<<<<1, 1>>>>, <<<<Q(1), Q(1)>>>>)
U2D == Mem(<<<<2, 1>>>>, <<<<Q(2), Q(1)>>>>)
M0 == Mem(<<<<0>>>>, <<<<Q(0)>>>>)
M00 == Mem(<<<<0, 0>>>>, <<<<Q(0), Q(0)>>>>)
Pi == Mem(<<<<1>>, <<1>>>>, <<<<Q(2)>>, <<Q(3)>>>>)

Named(b) ==
  CASE b = "ni1"   -> KS(1, 2, 1, <<<<1>>>>, <<<<Q(2)>>>>, "ni", FALSE)
    [] b = "ni2"   -> KS(3, 1, 1, <<<<2>>, <<1>>>>, <<<<Q(4)>>, <<Q(3)>>>>, "ni", TRUE)
    [] b = "ni3"   -> KS(2, 2, 2, <<<<2, 2>>, <<1, 0>>>>, <<<<H(3), Q(2)>>, <<H(1), Q(0)>>>>, "ni", TRUE)
    [] b = "ni4"   -> KS(2, 0, 1, <<<<2>>, <<1>>, <<1>>>>, <<<<Q(4)>>, <<Q(4)>>, <<Q(1)>>>>, "ni", TRUE)
    [] b = "dft1"  -> [KS(2, 2, 1, <<<<2>>>>, <<<<Q(4)>>>>, "dft", FALSE) EXCEPT !.iter = FALSE]
    [] b = "dft2"  -> [KS(3, 2, 1, <<<<2>>, <<1>>>>, <<<<Q(4)>>, <<Q(1)>>>>, "dft", TRUE) EXCEPT !.iter = FALSE]
    [] b = "dft3"  -> KS(1, 2, 2, <<<<2, 1>>>>, <<<<Q(2), Q(1)>>>>, "dft", FALSE)
    [] b = "dft4"  -> KS(2, 2, 2, <<<<2, 2>>, <<1, 1>>>>, <<<<Q(2), H(3)>>, <<H(1), H(1)>>>>, "dft", TRUE)
    [] b = "dft5"  -> [KS(3, 0, 1, <<<<2>>>>, <<<<Q(4)>>>>, "dft", FALSE) EXCEPT !.alpha = F4(3), !.cycles = 12]
    [] b = "gga1"  -> [KS(2, 1, 1, <<<<1>>>>, <<<<Q(2)>>>>, "dft", FALSE) EXCEPT !.gga = TRUE, !.iter = FALSE]
    [] b = "gga2"  -> [KS(1, 3, 2, <<<<1, 1>>>>, <<<<Q(1), H(1)>>>>, "dft", TRUE) EXCEPT !.gga = TRUE, !.alpha = One]
    [] b = "conv1" -> [KS(2, 2, 1, <<<<1>>>>, <<<<Q(2)>>>>, "dft", FALSE) EXCEPT !.conv = TRUE]
    [] b = "conv2" -> [KS(1, 3, 2, <<<<2, 1>>>>, <<<<Q(2), Q(1)>>>>, "dft", FALSE) EXCEPT !.conv = TRUE, !.iter = FALSE]
    [] b = "he_be" -> [PT(2, 3, 1, <<One1>>, One, <<Two35>>, One) EXCEPT !.frac = TRUE, !.iter = FALSE]
    [] b = "pi"    -> [PT(4, 2, 1, <<Pi>>, One, <<One1>>, One) EXCEPT !.frac = TRUE, !.kin = "libxcke", !.alpha = H(1), !.beta = F4(1), !.iter = FALSE]
    [] b = "spins" -> PT(2, 3, 2, <<U2D>>, One, <<UD>>, One)
    [] b = "equal" -> PT(2, 2, 2, <<U2D>>, One, <<U2D>>, One)
    [] b = "ess"   -> [PT(1, 2, 2, <<U1>>, One, <<U1>>, One) EXCEPT !.ens = TRUE]
    [] b = "essab" -> [PT(1, 1, 2, <<U1>>, One, <<U1>>, One) EXCEPT !.ens = TRUE, !.kin = "none"]
    [] b = "ovl"   -> [PT(1, 2, 2, <<U1>>, One, <<U2D>>, One) EXCEPT !.hxc = "overlap_xc"]
    [] b = "ovlh"  -> [PT(2, 2, 1, <<One1>>, One, <<One1>>, One) EXCEPT !.hxc = "overlap_hxc", !.iter = FALSE]
    [] b = "ens"   -> [PT(2, 3, 2, <<U1, UD>>, F4(1), <<UD, U2D>>, F4(3)) EXCEPT !.iter = FALSE]
    [] b = "ensab" -> PT(2, 2, 2, <<U1, UD>>, F4(1), <<U1, UD>>, F4(1))
    [] b = "enss"  -> [PT(2, 3, 2, <<U1, UD>>, F4(1), <<UD, U2D>>, F4(3)) EXCEPT !.ens = TRUE, !.hxc = "hartree"]
    [] b = "pure"  -> PT(2, 3, 2, <<UD, U2D>>, Zero, <<U2D, UD>>, Zero)
    [] b = "nip"   -> [PT(2, 3, 1, <<One1>>, One, <<One1>>, One) EXCEPT !.int = "ni"]
    [] b = "sdft"  -> [PT(2, 3, 1, <<One1>>, One, <<One1>>, One) EXCEPT !.calc = "sdft", !.kin = "none"]
    [] b = "iso"   -> [PT(2, 3, 1, <<One1>>, One, <<Two35>>, One) EXCEPT !.iso = TRUE, !.frac = TRUE, !.conv = TRUE]
    [] b = "isosp" -> [PT(1, 3, 2, <<U1>>, One, <<U2D>>, One) EXCEPT !.iso = TRUE, !.gga = TRUE, !.conv = TRUE]
    [] b = "empty" -> [PT(3, 1, 1, <<One1>>, One, <<M0>>, One) EXCEPT !.conv = TRUE, !.kin = "libxcke"]
    [] b = "emptys" -> [PT(2, 1, 2, <<U2D>>, One, <<M00>>, One) EXCEPT !.conv = TRUE, !.kin = "none", !.gga = TRUE]
    [] b = "convp" -> [PT(2, 3, 1, <<One1>>, One, <<One1>>, One) EXCEPT !.conv = TRUE]

(* a systematic family of further bases, numbered in mixed radix *)
Dig(i, below, radix) == (i \div below) % radix
ZPair(i) == <<<<3, 5>>, <<4, 4>>, <<6, 0>>, <<0, 5>>, <<5, 2>>>>[i + 1]
Shape(i) ==
  << Mem(<<<<2>>>>, <<<<H(7)>>>>),
     Mem(<<<<1>>, <<1>>>>, <<<<Q(2)>>, <<Q(1)>>>>),
     Mem(<<<<2>>, <<1>>, <<1>>>>, <<<<Q(4)>>, <<Q(4)>>, <<H(5)>>>>),
     Mem(<<<<2, 1>>>>, <<<<H(3), Q(1)>>>>),
     Mem(<<<<2, 2>>, <<0, 1>>>>, <<<<Q(2), F4(5)>>, <<Q(0), Q(2)>>>>),
     Mem(<<<<1, 1>>, <<1, 1>>, <<1, 0>>>>, <<<<Q(1), Q(1)>>, <<Q(2), H(1)>>, <<H(3), Q(0)>>>>) >>[i + 1]
AutoKS(i) ==
  LET z == ZPair(Dig(i, 1, 5))  m == Shape(Dig(i, 5, 6)) IN
  [KS(z[1], z[2], IF Dig(i, 5, 6) < 3 THEN 1 ELSE 2, m.nmo, m.n, IF Dig(i, 30, 2) = 0 THEN "dft" ELSE "ni", TRUE)
     EXCEPT !.iter = (Dig(i, 60, 2) = 0), !.gga = (Dig(i, 30, 2) = 0 /\ Dig(i, 120, 3) = 1),
            !.alpha = <<H(1), One, F4(1)>>[Dig(i, 120, 3) + 1]]
Pi2 == Mem(<<<<1, 1>>, <<1, 0>>>>, <<<<Q(1), Q(1)>>, <<H(3), Q(0)>>>>)
Pair(i) == <<<<One1, Two35>>, <<Pi, One1>>, <<U2D, UD>>, <<D1, U2D>>, <<Pi2, UD>>, <<UD, UD>>, <<Pi2, Pi2>>>>[i + 1]
AutoPT(i) ==
  LET s == Pair(Dig(i, 1, 7))  two == Dig(i, 7, 2) = 1  z == <<<<2, 3>>, <<3, 3>>, <<4, 1>>>>[Dig(i, 14, 3) + 1]
      pol == IF Dig(i, 1, 7) < 2 THEN 1 ELSE 2
      ms == IF two THEN s ELSE <<s[1]>>  ns == IF two THEN (IF Dig(i, 14, 3) = 1 THEN s ELSE <<s[2], s[1]>>) ELSE <<s[2]>> IN
  [PT(z[1], z[2], pol, ms, IF two THEN F4(1) ELSE One, ns, IF two THEN (IF Dig(i, 14, 3) = 1 THEN F4(1) ELSE F4(3)) ELSE One)
     EXCEPT !.frac = TRUE, !.kin = <<"vonweiz", "libxcke", "none">>[Dig(i, 42, 3) + 1],
            !.hxc = <<"exact", "hartree", "overlap_xc", "overlap_hxc">>[Dig(i, 126, 4) + 1],
            !.ens = (pol = 2 /\ Dig(i, 504, 2) = 1), !.calc = IF Dig(i, 1008, 2) = 1 THEN "sdft" ELSE "pdft",
            !.iter = (Dig(i, 2016, 2) = 1), !.alpha = H(1), !.beta = IF Dig(i, 14, 3) = 2 THEN F4(3) ELSE H(1)]
BaseCfg(b) == IF b[1] = "ks" THEN AutoKS(b[2]) ELSE IF b[1] = "part" THEN AutoPT(b[2]) ELSE Named(b[1])

(* -------------------------------------------------------- relations *)
Col(i, f) == [src |-> i, f |-> f]
Id(c) == [mir |-> FALSE, ab |-> FALSE, mem |-> FALSE, cols |-> [i \in 1..c.pol |-> Col(i, One)],
          s |-> One, shift |-> Zero, scope |-> "full", pad |-> FALSE]
St(c, r) == [c |-> c, r |-> r]

FlipSeq(x) == IF Len(x) = 2 THEN <<x[2], x[1]>> ELSE x
FlipM(m) == [nmo |-> [i \in 1..Len(m.nmo) |-> FlipSeq(m.nmo[i])], n |-> [i \in 1..Len(m.n) |-> FlipSeq(m.n[i])]]
SplitM(m) == [nmo |-> [i \in 1..Len(m.nmo) |-> <<m.nmo[i][1], m.nmo[i][1]>>],
              n |-> [i \in 1..Len(m.n) |-> <<QMul(H(1), m.n[i][1]), QMul(H(1), m.n[i][1])>>]]
OverM(ms, Op(_)) == [i \in 1..Len(ms) |-> Op(ms[i])]
Me(c) == [nmo |-> c.nmo, n |-> c.n]
Kp(c) == c.kind = "part"
(* an ensemble keeps the molecule's own spin structure only as a whole *)
Frag(x) == x.c.kind = "part" /\ x.r.scope = "full"

CanSwap(x) == x.r.scope \in {"full", "sum"}
Swap(x) == St(IF Kp(x.c) THEN [x.c EXCEPT !.za = x.c.zb, !.zb = x.c.za, !.A = x.c.B, !.B = x.c.A, !.nua = x.c.nub,
                                          !.nub = x.c.nua, !.alpha = x.c.beta, !.beta = x.c.alpha]
              ELSE [x.c EXCEPT !.za = x.c.zb, !.zb = x.c.za],
              [x.r EXCEPT !.mir = ~@, !.ab = ~@])
CanSpinX(x) == x.c.pol = 2
SpinX(x) == St(IF Kp(x.c) THEN [x.c EXCEPT !.A = OverM(@, FlipM), !.B = OverM(@, FlipM)]
               ELSE [x.c EXCEPT !.nmo = FlipM(Me(x.c)).nmo, !.n = FlipM(Me(x.c)).n],
               (* with ensemble spin symmetry the pair is unpolarised anyway *)
               [x.r EXCEPT !.cols = FlipSeq(@)])
(* the measure of change is not the same for one column and for two, so a run that
   switches to refinement when the change is small takes another path *)
CanSplit(x) == x.c.pol = 1 /\ (~x.c.iter \/ x.c.conv \/ (x.c.kind = "ks" /\ x.c.int = "ni"))
Split(x) == St(IF Kp(x.c) THEN [x.c EXCEPT !.A = OverM(@, SplitM), !.B = OverM(@, SplitM), !.pol = 2]
               ELSE [x.c EXCEPT !.nmo = SplitM(Me(x.c)).nmo, !.n = SplitM(Me(x.c)).n, !.pol = 2],
               [x.r EXCEPT !.cols = <<Col(1, QMul(H(1), x.r.cols[1].f)), Col(1, QMul(H(1), x.r.cols[1].f))>>])
CanScale(x) == x.c.int = "ni" /\ x.r.scope = "full" /\ ~Kp(x.c) /\ x.c.za # Zero /\ x.r.s = One
Scale(x, s) == St([x.c EXCEPT !.za = QMul(@, s), !.zb = QMul(@, s), !.a = QDiv(@, s), !.shift = QMul(@, QMul(s, s))],
                  [x.r EXCEPT !.s = QMul(@, s), !.shift = QMul(@, QMul(s, s))])
CanShift(x) == x.c.kind = "ks" /\ x.r.scope = "full" /\ x.r.shift = Zero
Shift(x, d) == St([x.c EXCEPT !.shift = QAdd(@, d)], [x.r EXCEPT !.shift = QAdd(@, d)])
(* the second nucleus as an external field (the first one has to dominate, or the
   estimate of the lowest level, which knows nuclei only, would lie too high) *)
CanField(x) == x.c.kind = "ks" /\ x.r.scope = "full" /\ x.c.zb # Zero /\ QLeq(QMul(Q(2), x.c.zb), x.c.za)
               /\ x.r.shift = Zero /\ x.r.s = One
Field(x) == St([x.c EXCEPT !.field = x.c.zb, !.zb = Zero], [x.r EXCEPT !.scope = "field"])
CanSymm(x) == x.c.kind = "ks" /\ x.r.scope = "full" /\ x.c.za = x.c.zb /\ ~x.c.sym
Symm(x) == St([x.c EXCEPT !.sym = TRUE], x.r)
EqualSpins(n) == \A i \in 1..Len(n) : n[i][1] = n[i][2]
CanFlip(x) == x.c.kind = "ks" /\ x.r.scope = "full" /\ x.c.pol = 2 /\ x.c.za = x.c.zb /\ ~x.c.flip /\ EqualSpins(x.c.n)
FlipSym(x) == St([x.c EXCEPT !.flip = TRUE], x.r)
CanPad(x) == x.c.kind = "ks" /\ ~x.r.pad
Pad(x) == St([x.c EXCEPT !.nmo = [i \in 1..Len(@) |-> [j \in 1..Len(@[i]) |-> IF @[i][j] = 0 THEN 0 ELSE @[i][j] + 1]]],
             [x.r EXCEPT !.pad = TRUE])
CanPath(x) == x.c.conv /\ x.c.alpha = H(1)
Path(x) == St(IF Kp(x.c) THEN [x.c EXCEPT !.alpha = F4(1), !.beta = F4(1), !.iter = ~@]
              ELSE [x.c EXCEPT !.alpha = F4(1), !.iter = ~@], x.r)
(* partitions *)
CanAb(x) == Frag(x) /\ x.c.za = x.c.zb /\ x.c.A = x.c.B /\ x.c.nua = x.c.nub /\ x.c.alpha = x.c.beta /\ ~x.c.ab
AbSym(x) == St([x.c EXCEPT !.ab = TRUE], x.r)
(* a mixing ratio of one on both sides means: no ensemble *)
CanMembers(x) == Frag(x) /\ Len(x.c.A) = 2 /\ ~(x.c.nua = Zero /\ x.c.nub = Zero)
Members(x) == St([x.c EXCEPT !.A = <<@[2], @[1]>>, !.B = <<@[2], @[1]>>, !.nua = QSub(One, @), !.nub = QSub(One, @)],
                 [x.r EXCEPT !.mem = ~@])
(* the correlated Hartree term of overlap_hxc distinguishes members by design *)
NoCor(x) == x.c.hxc # "overlap_hxc"
CanDup(x) == Frag(x) /\ Len(x.c.A) = 1 /\ NoCor(x)
Duplicate(x) == St([x.c EXCEPT !.A = <<@[1], @[1]>>, !.B = <<@[1], @[1]>>, !.nua = F4(1), !.nub = F4(1)],
                   [x.r EXCEPT !.scope = "sum"])
CanExplicit(x) == Frag(x) /\ Len(x.c.A) = 1 /\ x.c.ens /\ ~x.c.ab /\ NoCor(x)
Explicit(x) == St([x.c EXCEPT !.A = <<@[1], FlipM(@[1])>>, !.B = <<@[1], FlipM(@[1])>>, !.nua = H(1), !.nub = H(1),
                              !.ens = FALSE],
                  [x.r EXCEPT !.scope = "sum"])
CanLower(x) == Frag(x) /\ Len(x.c.A) = 2 /\ x.c.nua = Zero /\ x.c.nub = Zero /\ NoCor(x)
LowerOnly(x) == St([x.c EXCEPT !.A = <<@[1]>>, !.B = <<@[1]>>, !.nua = One, !.nub = One], [x.r EXCEPT !.scope = "sum"])
(* a closed fragment is its own mirror image in spin space *)
CanSpinSym(x) == Frag(x) /\ Len(x.c.A) = 1 /\ x.c.pol = 2 /\ ~x.c.ens /\ NoCor(x)
                 /\ EqualSpins(x.c.A[1].n) /\ EqualSpins(x.c.B[1].n)
SpinSym(x) == St([x.c EXCEPT !.ens = TRUE], [x.r EXCEPT !.scope = "sum"])
EmptyM(m) == \A i \in 1..Len(m.n) : \A j \in 1..Len(m.n[i]) : m.n[i][j] = Zero
AsKS(c, za, zb, m) ==
  [kind |-> "ks", za |-> za, zb |-> zb, a |-> c.a, pol |-> c.pol, nmo |-> m.nmo, n |-> m.n, int |-> c.int, frac |-> c.frac,
   sym |-> FALSE, flip |-> FALSE, shift |-> Zero, field |-> Zero, gga |-> c.gga, cycles |-> c.cycles, conv |-> c.conv, alpha |-> c.alpha,
   iter |-> c.iter]
CanReduce(x) == Frag(x) /\ x.c.conv /\ ~x.c.iso /\ Len(x.c.B) = 1 /\ EmptyM(x.c.B[1]) /\ ~x.r.ab
Reduce(x) == St(AsKS(x.c, x.c.za, x.c.zb, x.c.A[1]), [x.r EXCEPT !.scope = "ks"])
CanIso(x) == Frag(x) /\ x.c.iso /\ Len(x.c.A) = 1
Isolate(x) == St(AsKS(x.c, x.c.za, Zero, x.c.A[1]), [x.r EXCEPT !.scope = "frag"])

Moves(x) ==
  (IF CanSwap(x) THEN {Swap(x)} ELSE {}) \cup (IF CanSpinX(x) THEN {SpinX(x)} ELSE {})
  \cup (IF CanSplit(x) THEN {Split(x)} ELSE {}) \cup (IF CanScale(x) THEN {Scale(x, Q(2)), Scale(x, H(1))} ELSE {})
  \cup (IF CanShift(x) THEN {Shift(x, F4(3))} ELSE {}) \cup (IF CanSymm(x) THEN {Symm(x)} ELSE {})
  \cup (IF CanField(x) THEN {Field(x)} ELSE {})
  \cup (IF CanFlip(x) THEN {FlipSym(x)} ELSE {}) \cup (IF CanPad(x) THEN {Pad(x)} ELSE {})
  \cup (IF CanPath(x) THEN {Path(x)} ELSE {}) \cup (IF CanAb(x) THEN {AbSym(x)} ELSE {})
  \cup (IF CanMembers(x) THEN {Members(x)} ELSE {}) \cup (IF CanDup(x) THEN {Duplicate(x)} ELSE {})
  \cup (IF CanExplicit(x) THEN {Explicit(x)} ELSE {}) \cup (IF CanLower(x) THEN {LowerOnly(x)} ELSE {})
  \cup (IF CanSpinSym(x) THEN {SpinSym(x)} ELSE {}) \cup (IF CanReduce(x) THEN {Reduce(x)} ELSE {})
  \cup (IF CanIso(x) THEN {Isolate(x)} ELSE {})

Init == base \in {<<w, 0>> : w \in Wanted} \cup {<<Kind, i>> : i \in Auto} /\ cfg = BaseCfg(base) /\ rel = Id(BaseCfg(base)) /\ depth = 0
Next == /\ depth < Depth
        /\ \E y \in Moves(St(cfg, rel)) : cfg' = y.c /\ rel' = y.r
        /\ depth' = depth + 1 /\ UNCHANGED base
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- laws *)
X0 == St(cfg, rel)
QSum2(n) == QSum([i \in 1..Len(n) |-> QSum(n[i])])
Wt(c, nu, k) == IF Len(c.A) = 1 THEN One ELSE IF k = 1 THEN QSub(One, nu) ELSE nu
ElA(c) == QSum([k \in 1..Len(c.A) |-> QMul(Wt(c, c.nua, k), QSum2(c.A[k].n))])
ElB(c) == QSum([k \in 1..Len(c.B) |-> QMul(Wt(c, c.nub, k), QSum2(c.B[k].n))])
Electrons(c) == IF Kp(c) THEN QAdd(ElA(c), ElB(c)) ELSE QSum2(c.n)
B0 == BaseCfg(base)
Vnn(c) == QDiv(QMul(c.za, c.zb), QMul(Q(2), c.a))
(* the nuclear potential at two sample points with distances rA, rB *)
ZB(c) == IF Kp(c) THEN c.zb ELSE QAdd(c.zb, c.field)
Vat(c, ra, rb) == QNeg(QAdd(QDiv(c.za, ra), QDiv(ZB(c), rb)))
Laws ==
  LET x == X0 IN
  /\ CanSwap(x) => Swap(Swap(x)) = x
  /\ CanSpinX(x) => SpinX(SpinX(x)) = x
  /\ CanSwap(x) /\ CanSpinX(x) => SpinX(Swap(x)) = Swap(SpinX(x))
  /\ CanSwap(x) /\ CanSplit(x) => Split(Swap(x)) = Swap(Split(x))
  /\ CanSplit(x) => SpinX(Split(x)) = Split(x)
  /\ CanScale(x) => Scale(Scale(x, Q(2)), H(1)) = x
  /\ CanScale(x) /\ CanShift(x) => Scale(Shift(x, One), H(1)) = Shift(Scale(x, H(1)), F4(1))
  /\ CanMembers(x) => Members(Members(x)) = x
  /\ CanMembers(x) => Members(Swap(x)) = Swap(Members(x))
  (* the physics is the same: electrons, nuclei, their repulsion and field *)
  /\ rel.scope # "frag" => Electrons(cfg) = Electrons(B0) /\ (rel.scope # "field" => Vnn(cfg) = QMul(QMul(rel.s, QMul(rel.s, rel.s)), Vnn(B0)))
  /\ rel.scope = "frag" => Electrons(cfg) = IF rel.ab THEN ElB(B0) ELSE ElA(B0)
  /\ rel.scope # "frag" => \A p \in {<<Q(1), Q(2)>>, <<H(1), Q(3)>>} :
        QMul(QMul(rel.s, rel.s), IF rel.mir THEN Vat(B0, p[2], p[1]) ELSE Vat(B0, p[1], p[2]))
        = Vat(cfg, QDiv(p[1], rel.s), QDiv(p[2], rel.s))
  (* the columns account for all of the base's electrons *)
  /\ QSum([i \in 1..Len(rel.cols) |-> rel.cols[i].f]) = Q(B0.pol)

(* --------------------------------------------------- what is compared *)
S2 == QMul(rel.s, rel.s)
S3 == QMul(S2, rel.s)
(* one comparison: the value is fac * (sum of the base's from) + off, mirrored, column by column *)
Fld(o, from, fac, off, dens) ==
  [obs |-> o, from |-> from, fac |-> fac, off |-> off, mir |-> rel.mir,
   cols |-> [i \in 1..Len(rel.cols) |-> [src |-> rel.cols[i].src, f |-> IF dens THEN rel.cols[i].f ELSE One]]]
Num(o, from, fac, off) == [obs |-> o, from |-> from, fac |-> fac, off |-> off, mir |-> FALSE, cols |-> <<>>]
Vec(o, from) == [obs |-> o, from |-> from, fac |-> S2, off |-> Zero, mir |-> FALSE,
                 cols |-> [i \in 1..Len(rel.cols) |-> [src |-> rel.cols[i].src, f |-> rel.cols[i].f]]]
One1D(o, from) == [obs |-> o, from |-> from, fac |-> S2, off |-> Zero, mir |-> rel.mir, cols |-> <<>>]
Dft == cfg.int = "dft"
KSTable ==
  << Fld("n", <<"n">>, S3, Zero, TRUE), Fld("vnuc", <<"vnuc">>, S2, Zero, FALSE),
     Fld("veff", <<"veff">>, S2, rel.shift, FALSE),
     Fld("vext", <<"vext">>, S2, rel.shift, FALSE), Fld("vhxc", <<"vhxc">>, S2, Zero, FALSE),
     Num("u", <<"u">>, S2, rel.shift), Num("E.Ts", <<"E.Ts">>, S2, Zero), Num("E.Enuc", <<"E.Enuc">>, S2, Zero),
     Num("E.Et", <<"E.Et">>, S2, Zero), Num("E.Vnn", <<"E.Vnn">>, S3, Zero),
     Num("E.Vext", <<"E.Vext">>, S2, QMul(rel.shift, Electrons(cfg))) >>
  \o (IF rel.s = One THEN <<Num("E.E", <<"E.E">>, One, Zero)>> ELSE <<>>)
  \o (IF rel.shift = Zero THEN <<Vec("E.Eks", <<"E.Eks">>), Vec("E.Vks", <<"E.Vks">>)>> ELSE <<>>)
  \o (IF Dft THEN << Num("E.Eh", <<"E.Eh">>, One, Zero), Num("E.Ex", <<"E.Ex">>, One, Zero),
                     Num("E.Ec", <<"E.Ec">>, One, Zero), Num("E.Vhxc", <<"E.Vhxc">>, One, Zero),
                     Fld("V.vh", <<"V.vh">>, One, Zero, FALSE), Fld("V.vx", <<"V.vx">>, One, Zero, FALSE),
                     Fld("V.vc", <<"V.vc">>, One, Zero, FALSE), One1D("V.eh", <<"V.eh">>) >> ELSE <<>>)
Fr(x) == IF rel.ab THEN (IF x = "a" THEN "b" ELSE "a") ELSE x
SumTable ==
  << Fld("nf", <<"nf">>, One, Zero, TRUE), Fld("na", <<"n" \o Fr("a")>>, One, Zero, TRUE), Fld("nb", <<"n" \o Fr("b")>>, One, Zero, TRUE),
     Fld("V.vext", <<"V.vext">>, One, Zero, FALSE),
     Num("E.Ea", <<"E.E" \o Fr("a")>>, One, Zero), Num("E.Eb", <<"E.E" \o Fr("b")>>, One, Zero),
     Num("E.Ef", <<"E.Ef">>, One, Zero), Num("E.Ep", <<"E.Ep">>, One, Zero), Num("E.Et", <<"E.Et">>, One, Zero),
     Num("E.E", <<"E.E">>, One, Zero), Num("E.Vnn", <<"E.Vnn">>, One, Zero), Num("E.Tsf", <<"E.Tsf">>, One, Zero),
     Num("E.Enucf", <<"E.Enucf">>, One, Zero), Num("E.Ep_pot", <<"E.Ep_pot">>, One, Zero),
     Num("E.Ep_kin", <<"E.Ep_kin">>, One, Zero), Num("E.Ep_hxc", <<"E.Ep_hxc">>, One, Zero) >>
  \o (IF cfg.calc = "pdft" /\ ~cfg.iso /\ cfg.kin # "none" THEN << Fld("V.vp", <<"V.vp">>, One, Zero, FALSE), Fld("V.vp_pot", <<"V.vp_pot">>, One, Zero, FALSE),
                 Fld("V.vp_kin", <<"V.vp_kin">>, One, Zero, FALSE), Fld("V.vp_hxc", <<"V.vp_hxc">>, One, Zero, FALSE) >> ELSE <<>>)
  \o (IF Dft THEN << Num("E.Ehf", <<"E.Ehf">>, One, Zero), Num("E.Exf", <<"E.Exf">>, One, Zero),
                     Num("E.Ecf", <<"E.Ecf">>, One, Zero), Num("E.Vhxcf", <<"E.Vhxcf">>, One, Zero) >> ELSE <<>>)
Memb == IF Len(cfg.A) = 1 THEN <<1>> ELSE <<1, 2>>
Nm(f, k) == IF f = "a" THEN (IF k = 1 THEN "KSa" ELSE "KSA") ELSE (IF k = 1 THEN "KSb" ELSE "KSB")
Mb(k) == IF rel.mem THEN 3 - k ELSE k
FragTable(f, k) ==
  LET o == Nm(f, k)   s == Nm(Fr(f), Mb(k)) IN
  << Fld(o \o ".n", <<s \o ".n">>, One, Zero, TRUE), Fld(o \o ".veff", <<s \o ".veff">>, One, Zero, FALSE),
     Fld(o \o ".vnuc", <<s \o ".vnuc">>, One, Zero, FALSE), Fld(o \o ".vext", <<s \o ".vext">>, One, Zero, FALSE),
     Num(o \o ".E.E", <<s \o ".E.E">>, One, Zero), Num(o \o ".E.Ts", <<s \o ".E.Ts">>, One, Zero), Num(o \o ".u", <<s \o ".u">>, One, Zero),
     Num(o \o ".scale", <<s \o ".scale">>, One, Zero) >>
FullTable == SumTable \o FragTable("a", 1) \o FragTable("b", 1)
             \o (IF Len(cfg.A) = 2 THEN FragTable("a", 2) \o FragTable("b", 2) ELSE <<>>)
RedTable ==
  << Fld("n", <<"nf">>, One, Zero, TRUE), Fld("veff", <<"KSa.veff">>, One, Zero, FALSE),
     Num("u", <<"KSa.u">>, One, Zero), Num("E.E", <<"E.E">>, One, Zero), Num("E.Et", <<"E.Et">>, One, Zero),
     Num("E.Ts", <<"E.Tsf", "E.Ep_kin">>, One, Zero), Num("E.Enuc", <<"E.Enucf", "E.Ep_pot">>, One, Zero),
     Num("E.Eh", <<"E.Ehf", "E.Ep_h">>, One, Zero), Num("E.Ex", <<"E.Exf", "E.Ep_x">>, One, Zero),
     Num("E.Ec", <<"E.Ecf", "E.Ep_c">>, One, Zero) >>
IsoTable ==
  LET s == "KS" \o Fr("a") IN
  << Fld("n", <<s \o ".n">>, One, Zero, TRUE), Fld("n", <<"n" \o Fr("a")>>, One, Zero, TRUE), Fld("veff", <<s \o ".veff">>, One, Zero, FALSE),
     Num("u", <<s \o ".u">>, One, Zero), Num("E.Et", <<"E.E" \o Fr("a")>>, One, Zero), Num("E.Et", <<s \o ".E.E">>, One, Zero) >>
FieldTable ==
  << Fld("n", <<"n">>, One, Zero, TRUE), Fld("veff", <<"veff">>, One, Zero, FALSE), Fld("vnuc+vext", <<"vnuc">>, One, Zero, FALSE),
     Fld("vhxc", <<"vhxc">>, One, Zero, FALSE), Num("u", <<"u">>, One, Zero), Num("E.Ts", <<"E.Ts">>, One, Zero),
     Num("E.Enuc+E.Vext", <<"E.Enuc">>, One, Zero), Num("E.Et+E.Vext", <<"E.Et">>, One, Zero), Num("E.Vnn", <<>>, One, Zero) >>
Table == CASE rel.scope = "field" -> FieldTable
           [] rel.scope = "ks" -> RedTable
           [] rel.scope = "frag" -> IsoTable
           [] rel.scope = "sum" -> SumTable
           [] OTHER -> IF Kp(cfg) THEN FullTable ELSE KSTable

Emit == PrintT("@@" \o ToJson([base |-> base, depth |-> depth, from |-> B0, cfg |-> cfg, pad |-> rel.pad, scope |-> rel.scope, table |-> Table]))
=============================================================================
