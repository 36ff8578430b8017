----------------------------- MODULE Occupation -----------------------------
(***************************************************************************)
(* C10.  Filling the levels of one orbital solver.                          *)
(*                                                                          *)
(* Electrons are counted in parts (n4 = Unit N): quarters, and a few very   *)
(* small fractions above and below full levels.  A level of a solver of     *)
(* angular momentum m holds Cap electrons: 2 when the solver is spinless,   *)
(* 1 when it is spin resolved, twice that for m > 0 (+m and -m).  Levels    *)
(* fill in order; the last may stay partially filled only when fractional   *)
(* occupation is enabled.  n4 = -Unit (N = -1) asks for all levels full.    *)
(***************************************************************************)
EXTENDS Rat, Json

CONSTANTS NmoMax, MSet, Unit, Small

VARIABLES pol, m, frac, n4, nmo, occ4, left
vars == <<pol, m, frac, n4, nmo, occ4, left>>

Cap(p, mm) == (IF p = 1 THEN 2 ELSE 1) * (IF mm = 0 THEN 1 ELSE 2)
Cap4 == Unit * Cap(pol, m)
Want == IF n4 = -Unit THEN Cap4 * nmo ELSE n4

Numbers == LET closed == {Cap4 * k : k \in 0..nmo} IN
  {k \in {(Unit \div 4) * i : i \in 0..(4 * Cap(pol, m) * nmo)}
         \cup {k + d : k \in closed, d \in Small} \cup {k - d : k \in closed, d \in Small} : k >= 0 /\ k <= Cap4 * nmo}

Init == /\ pol \in {1, 2} /\ m \in MSet /\ frac \in BOOLEAN /\ nmo \in 0..NmoMax
        /\ n4 \in {-Unit} \cup Numbers
        /\ n4 = -Unit => m = 0
        /\ n4 # -Unit => (frac \/ n4 % Cap4 = 0)    \* closed levels unless fractional
        /\ occ4 = <<>>
        /\ left = Want
Fill == /\ Len(occ4) < nmo
        /\ LET k == Min2(left, Cap4) IN
           /\ occ4' = Append(occ4, k)
           /\ left' = left - k
        /\ UNCHANGED <<pol, m, frac, n4, nmo>>
Next == Fill
Spec == Init /\ [][Next]_vars

Filled == Len(occ4) = nmo
AllPlaced == Filled => left = 0
Conserved == ISum(occ4) + left = Want
Aufbau == \A i \in 1..Len(occ4) : (i < Len(occ4) /\ occ4[i] < Cap4) => occ4[i + 1] = 0
(* index of the highest occupied level, 0 if there is none *)
Homo == IF \E i \in 1..nmo : occ4[i] > 0
        THEN CHOOSE i \in 1..nmo : occ4[i] > 0 /\ \A j \in (i + 1)..nmo : occ4[j] = 0
        ELSE 0

Emit == Filled =>
  PrintT("@@" \o ToJson([unit |-> Unit, pol |-> pol, m |-> m, frac |-> frac, n4 |-> n4, nmo |-> nmo,
                         total4 |-> Want, occ4 |-> occ4, homo |-> Homo, cap |-> Cap(pol, m)]))
=============================================================================
