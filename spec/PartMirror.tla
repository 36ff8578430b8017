------------------------------ MODULE PartMirror ------------------------------
(***************************************************************************)
(* C18.  The symmetric pair as a machine of named cells.                    *)
(*                                                                          *)
(* Every fragment a, b (or a, A, b, B) holds one cell per quantity.  A      *)
(* computation writes cells of single fragments (in place); `mirror' makes  *)
(* the cells of side 2 the images of those of side 1: fields are reflected  *)
(* site by site, numbers are taken over.  Nothing else changes: a write to  *)
(* one fragment is never seen in another.                                   *)
(*                                                                          *)
(* A cell's value is <<version, reflected>>: fields of distinct values per  *)
(* site and column, made by the harness from (fragment, version).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Setups
VARIABLES setup, cells, prog
vars == <<setup, cells, prog>>
NFr == IF setup.ens THEN 4 ELSE 2
Fr == 1..NFr
Side2(i) == i > NFr \div 2
Source(i) == i - NFr \div 2
Init == /\ setup \in Setups /\ prog = <<>>
        /\ cells = [i \in Fr |-> [who |-> i, version |-> 0, refl |-> FALSE]]
Write(i) == /\ cells' = [cells EXCEPT ![i] = [who |-> i, version |-> Len(prog) + 1, refl |-> FALSE]]
            /\ prog' = Append(prog, i)
DoMirror == /\ cells' = [i \in Fr |-> IF Side2(i) THEN [cells[Source(i)] EXCEPT !.refl = ~@] ELSE cells[i]]
            /\ prog' = Append(prog, 0)
Next == /\ Len(prog) < Depth /\ UNCHANGED setup
        /\ (DoMirror \/ \E i \in Fr : Write(i))
Spec == Init /\ [][Next]_vars

Mirrored == \E k \in 1..Len(prog) : prog[k] = 0
LastIsMirror == Len(prog) > 0 /\ prog[Len(prog)] = 0
Pair == LastIsMirror => \A i \in Fr : Side2(i) => cells[i].who = Source(i) /\ cells[i].refl
(* only mirroring moves values between fragments, and only from side 1 to 2 *)
Own == \A i \in Fr : ~Side2(i) => cells[i].who = i /\ ~cells[i].refl
Frame == [][\A i \in Fr : (cells'[i] # cells[i]) => (Len(prog') > 0 /\ prog'[Len(prog')] \in {0, i})]_vars
Emit == (Len(prog) = Depth /\ Mirrored) => PrintT("@@" \o ToJson([setup |-> setup, prog |-> prog, cells |-> cells]))
AllSetups == { [ens |-> e, pol |-> pl] : e \in BOOLEAN, pl \in {1, 2} }
=============================================================================
