------------------------------- MODULE InvWatch -------------------------------
(***************************************************************************)
(* C27.  A partition run that leans on inversions watches them.             *)
(*                                                                          *)
(* Every cycle of an interacting run brings one report per inverted spin    *)
(* (rows and columns of a table, read in order).  The environment picks     *)
(* the residual of each, and whether the run converges at this cycle.  Two  *)
(* failing reports in a row end the run with SystemExit after the cycle     *)
(* that brought the second; a satisfactory report in between resets the     *)
(* count, a new call starts at zero.  A residual of 1 is still fine, one    *)
(* that is not a number is not.  In its first cycle a kinetic inversion is  *)
(* asked for a single evaluation, later ones for the full loop.  Isolated   *)
(* runs and runs without inversions ask and read nothing.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Setups
VARIABLES setup, r, cyc, fails, phase, seen, done
vars == <<setup, r, cyc, fails, phase, seen, done>>
(* setup: kind of the run, shape of the table of reports, levels a report may
   have, calls: cycles allowed and whether isolated ("keep": as the last call) *)
Cells == setup.shape[1] * setup.shape[2]
Bad(x) == x \in {"two", "nan"}
RECURSIVE Iso(_)
Iso(k) == IF k = 0 THEN FALSE ELSE IF setup.calls[k].iso = "keep" THEN Iso(k - 1) ELSE setup.calls[k].iso = "yes"
Watching == setup.kind # "none" /\ ~Iso(r)
Flag == IF setup.kind \notin {"inversion", "both"} \/ Iso(r) THEN "keep" ELSE IF cyc = 0 THEN "once" ELSE "full"
(* the count after each report; 2 is the end *)
RECURSIVE Count(_, _)
Count(n, t) == IF t = <<>> \/ n > 1 THEN n ELSE Count(IF Bad(Head(t)) THEN n + 1 ELSE 0, Tail(t))
Init == /\ setup \in Setups /\ r = 1 /\ cyc = 0 /\ fails = 0 /\ phase = "loop" /\ seen = << <<>> >> /\ done = <<>>
Limit == setup.calls[r].limit
Rows == IF Watching THEN [1..Cells -> setup.levels] ELSE {<<>>}
Cycle == /\ phase = "loop"
         /\ \E t \in Rows : \E conv \in (IF cyc = 0 THEN {FALSE} ELSE setup.conv) :
              LET n == Count(fails, t)
                  s2 == [seen EXCEPT ![r] = Append(@, [flag |-> Flag, res |-> t, conv |-> conv])]
                  over == n > 1 \/ conv \/ cyc + 1 = Limit
              IN IF over
                 THEN /\ done' = Append(done, [cyc |-> cyc + 1, stop |-> n > 1, warn |-> ~conv /\ n < 2])
                      /\ IF r < Len(setup.calls)
                         THEN r' = r + 1 /\ cyc' = 0 /\ fails' = 0 /\ phase' = "loop" /\ seen' = Append(s2, <<>>)
                         ELSE r' = r /\ cyc' = cyc + 1 /\ fails' = n /\ phase' = "end" /\ seen' = s2
                 ELSE r' = r /\ cyc' = cyc + 1 /\ fails' = n /\ phase' = phase /\ seen' = s2 /\ done' = done
         /\ UNCHANGED setup
Next == Cycle
Spec == Init /\ [][Next]_vars

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s).res \o Flat(Tail(s))
Pair(s) == \E i \in 1..(Len(s) - 1) : Bad(s[i]) /\ Bad(s[i + 1])
(* a call ends so exactly if it saw two failing reports in a row, and then in
   the cycle that brought the second *)
StopIffPair == \A k \in 1..Len(done) : /\ done[k].stop <=> Pair(Flat(seen[k]))
                                       /\ ~Pair(Flat(SubSeq(seen[k], 1, done[k].cyc - 1)))
OneIsNoFailure == \A k \in 1..Len(done) : Cardinality({i \in 1..Len(Flat(seen[k])) : Bad(Flat(seen[k])[i])}) < 2 => ~done[k].stop
OnlyWatched == \A k \in 1..Len(done) : (setup.kind = "none" \/ Iso(k)) => ~done[k].stop
FirstOnly == \A k \in 1..Len(seen) : \A i \in 1..Len(seen[k]) :
   /\ seen[k][i].flag = "once" => i = 1
   /\ (setup.kind \in {"inversion", "both"} /\ ~Iso(k)) => seen[k][i].flag = (IF i = 1 THEN "once" ELSE "full")
Emit == phase = "end" => PrintT("@@" \o ToJson([setup |-> setup, seen |-> seen, done |-> done,
                                               iso |-> [k \in 1..Len(setup.calls) |-> Iso(k)]]))

(* ------------------------------------------------------------- instances *)
Call(n, i) == [limit |-> n, iso |-> i]
Su(kind, shape, levels, conv, calls) == [kind |-> kind, shape |-> shape, levels |-> levels, conv |-> conv, calls |-> calls]
All == {"half", "one", "two", "nan"}
Two == {"one", "two"}
Kinds == {"inversion", "potential", "both"}
NoConv == {FALSE}
SomeSetups ==
  { Su(k, <<1, 1>>, All, NoConv, << Call(4, "keep") >>) : k \in Kinds }
  \cup { Su("inversion", <<1, 1>>, Two, BOOLEAN, << Call(6, "keep") >>) }
  \cup { Su(k, <<1, 2>>, {"half", "nan", "two"}, NoConv, << Call(2, "keep") >>) : k \in Kinds }
  \cup { Su(k, <<1, 2>>, Two, NoConv, << Call(3, "keep") >>) : k \in Kinds }
  \cup { Su(k, <<2, 1>>, Two, BOOLEAN, << Call(3, "keep") >>) : k \in {"inversion"} }
  \cup { Su(k, <<1, 1>>, Two, NoConv, << Call(3, a), Call(3, b) >>) : k \in Kinds, a \in {"keep"}, b \in {"keep", "yes"} }
  \cup { Su("inversion", <<1, 1>>, Two, NoConv, << Call(2, "yes"), Call(2, b), Call(2, c) >>) : b \in {"keep", "no"}, c \in {"no", "keep", "yes"} }
  \cup { Su("none", <<1, 1>>, Two, BOOLEAN, << Call(3, a) >>) : a \in {"keep", "yes", "no"} }
MoreSetups == SomeSetups
  \cup { Su(k, <<1, 1>>, Two, BOOLEAN, << Call(8, "keep") >>) : k \in Kinds }
  \cup { Su(k, <<1, 2>>, All, NoConv, << Call(3, "keep") >>) : k \in Kinds }
  \cup { Su(k, <<2, 2>>, Two, NoConv, << Call(3, "keep") >>) : k \in {"inversion", "potential"} }
  \cup { Su(k, <<1, 2>>, Two, NoConv, << Call(3, "no"), Call(2, "yes"), Call(3, "no") >>) : k \in {"inversion", "potential"} }
=============================================================================
