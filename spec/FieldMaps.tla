------------------------------ MODULE FieldMaps ------------------------------
(***************************************************************************)
(* C05.  Maps on fields over the grid.                                      *)
(*                                                                          *)
(* A field has ncol columns (ncol = 0: a bare vector).  The state keeps,    *)
(* for every cell <<k, c>>, the cell of the original field its value came   *)
(* from.  Mirror moves values between points of equal radius and            *)
(* supplementary angle; spin flip reverses the columns (a bare vector is    *)
(* left alone).                                                             *)
(***************************************************************************)
EXTENDS Rat, Json

CONSTANTS Grids, MaxLen, ColCounts     \* Grids: set of <<np, nma, nmr>>

VARIABLES g, ncol, src, word
vars == <<g, ncol, src, word>>

na == (g[1] - 1) * g[2] + 1
nr == (g[1] - 1) * g[3] + 1
Nelem == na * nr
Cols == 1..Max2(ncol, 1)
Cells == (1..Nelem) \X Cols
AIx(k) == ((k - 1) % na) + 1
RIx(k) == ((k - 1) \div na) + 1
MIx(k) == (RIx(k) - 1) * na + na + 1 - AIx(k)
FCol(c) == Max2(ncol, 1) + 1 - c

Ident == [x \in Cells |-> x]
Init == g \in Grids /\ ncol \in ColCounts /\ src = Ident /\ word = <<>>
Mirror == /\ word' = Append(word, "mirror")
          /\ src' = TLCEval([x \in Cells |-> src[<<MIx(x[1]), x[2]>>]])
Flip   == /\ word' = Append(word, "spinflip")
          /\ src' = TLCEval([x \in Cells |-> src[<<x[1], FCol(x[2])>>]])
Next == Len(word) < MaxLen /\ (Mirror \/ Flip) /\ UNCHANGED <<g, ncol>>
Spec == Init /\ [][Next]_vars

Count(o) == Len(SelectSeq(word, LAMBDA x : x = o))
(* Involutions that commute: only the parities of the counts matter. *)
NormalForm ==
  \A x \in Cells :
    src[x] = << IF Count("mirror") % 2 = 1 THEN MIx(x[1]) ELSE x[1],
                IF Count("spinflip") % 2 = 1 THEN FCol(x[2]) ELSE x[2] >>
Bijective == {src[x] : x \in Cells} = Cells
(* The mirror never mixes radial layers or columns. *)
KeepsLayer == \A x \in Cells : RIx(src[x][1]) = RIx(x[1])

Emit == PrintT("@@" \o ToJson(
  [np |-> g[1], nma |-> g[2], nmr |-> g[3], na |-> na, nr |-> nr, ncol |-> ncol, word |-> word,
   src |-> [c \in Cols |-> [k \in 1..Nelem |-> src[<<k, c>>]]]]))
=============================================================================
