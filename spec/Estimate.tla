------------------------------ MODULE Estimate ------------------------------
(***************************************************************************)
(* C11.  Which levels a Kohn-Sham object's solvers return.                  *)
(*                                                                          *)
(* A solver asks the eigensolver for the levels nearest to a shift, its     *)
(* energy estimate.  What a user relies on is that these are the LOWEST     *)
(* levels.  State: the charges of the two nuclei, the angular momentum m,   *)
(* the number of levels and the spectrum (a finite set of integer levels,   *)
(* in units of 1/(2(m+1)^2), none below the united atom's -(Za+Zb)^2).      *)
(* Actions move a nucleus' charge and change the spectrum.  The invariant   *)
(* is that a shift at or below the united atom's level makes "nearest" mean *)
(* "lowest" for every spectrum, and that a shift above it does not.         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS Charges, MaxLevels, Ms, MaxNmo

VARIABLES za, zb, m, nmo, spec
vars == <<za, zb, m, nmo, spec>>

United == 0 - (za + zb) * (za + zb)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
(* the k-element subsets that are "lowest" / "nearest to s" *)
IsLowest(S) == \A x \in S : \A y \in spec \ S : x < y
IsNearest(S, s) == \A x \in S : \A y \in spec \ S : Abs(x - s) <= Abs(y - s)
Picks(s) == {S \in SUBSET spec : Cardinality(S) = nmo /\ IsNearest(S, s)}

Window == United..(United + 4)
Init == /\ za \in Charges /\ zb \in Charges /\ za + zb > 0
        /\ m \in Ms /\ nmo \in 1..MaxNmo
        /\ spec \in {S \in SUBSET Window : Cardinality(S) \in nmo..MaxLevels}
Next == /\ \E x \in Window : spec' = IF x \in spec THEN spec \ {x} ELSE spec \union {x}
        /\ Cardinality(spec') \in nmo..MaxLevels
        /\ UNCHANGED <<za, zb, m, nmo>>
Spec == Init /\ [][Next]_vars

(* a shift at or below the united atom selects exactly the lowest levels *)
BelowIsLowest ==
  \A s \in (United - 3)..United : \A S \in Picks(s) : IsLowest(S)
(* every higher integer shift selects other levels for some spectrum in this
   window: the witness is the spectrum {s - 2, s + 1} and one level *)
HigherFails ==
  \A s \in (United + 2)..(United + 3) :
     (nmo = 1 /\ spec = {s - 2, s + 1}) => \E S \in Picks(s) : ~IsLowest(S)

Emit == (spec = United..(United + MaxLevels - 1)) =>
   PrintT("@@" \o ToJson([za |-> za, zb |-> zb, m |-> m, nmo |-> nmo]))
=============================================================================
