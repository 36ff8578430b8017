----------------------------- MODULE LoopControl -----------------------------
(***************************************************************************)
(* C14, C23.  When the self-consistency loops stop.                         *)
(*                                                                          *)
(* What happens inside a cycle is left to the environment: it picks, cycle  *)
(* by cycle, the larger of the relative changes of energy and density.  The *)
(* first change of a call is always 1 (the energy is compared with zero).   *)
(* A call goes on while the change exceeds e_tol or, with auto_tol, while   *)
(* fewer than auto_tol_iter cycles in a row have missed a new minimum; and  *)
(* never beyond its iteration limit.  Every history of changes up to the    *)
(* bound is explored, whatever physical system it may belong to.            *)
(***************************************************************************)
EXTENDS Rat, Json
CONSTANTS Levels, Calls
VARIABLES calls, r, phase, seq, cyc, diff, mind, notmin, done
vars == <<calls, r, phase, seq, cyc, diff, mind, notmin, done>>
O == calls[r]
Far == <<10, 1>>
Init == /\ calls \in Calls /\ r = 1 /\ phase = "loop" /\ seq = << <<>> >> /\ cyc = 0 /\ diff = Far
        /\ mind = Far /\ notmin = 0 /\ done = <<>>
Wanting == QLessE(O.etol, diff) \/ (O.auto /\ notmin < O.autoiter)
Choices == IF cyc = 0 THEN {One} ELSE {d \in Levels : ~O.auto \/ d # mind}
Cycle == /\ phase = "loop" /\ Wanting /\ cyc < O.maxiter
         /\ \E d \in Choices :
              /\ diff' = d /\ seq' = [seq EXCEPT ![r] = Append(@, d)]
              /\ IF QLessE(d, mind) THEN mind' = d /\ notmin' = 0
                 ELSE mind' = mind /\ notmin' = notmin + 1
         /\ cyc' = cyc + 1 /\ UNCHANGED <<calls, r, phase, done>>
Stop == /\ phase = "loop" /\ ~(Wanting /\ cyc < O.maxiter)
        /\ done' = Append(done, [cyc |-> cyc, cut |-> QLessE(O.etol, diff) /\ cyc = O.maxiter])
        /\ IF r < Len(calls)
           THEN /\ r' = r + 1 /\ phase' = "loop" /\ seq' = Append(seq, <<>>)
                /\ cyc' = 0 /\ diff' = Far /\ mind' = Far /\ notmin' = 0
           ELSE /\ phase' = "end" /\ UNCHANGED <<r, seq, cyc, diff, mind, notmin>>
        /\ UNCHANGED calls
Next == Cycle \/ Stop
Spec == Init /\ [][Next]_vars

(* the running minimum is the minimum of the call's changes *)
MinIsMin == \A i \in 1..Len(seq[r]) : ~QLessE(seq[r][i], mind)
(* what counts is a run of cycles without a new minimum, not their total *)
Streak == \A k \in 1..Len(seq[r]) : (\A i \in 1..(k - 1) : QLessE(seq[r][k], seq[r][i])) => notmin <= Len(seq[r]) - k
Ended(i) == done[i].cyc = calls[i].maxiter \/ ~QLessE(calls[i].etol, seq[i][done[i].cyc])
NeverEarly == phase = "end" => \A i \in 1..Len(calls) : Ended(i)
NeverLate == cyc <= O.maxiter
(* without auto_tol no change but the last is within the tolerance *)
FirstHit == phase = "end" => \A i \in 1..Len(calls) : calls[i].auto \/
     \A k \in 1..(done[i].cyc - 1) : QLessE(calls[i].etol, seq[i][k])
Emit == phase = "end" => PrintT("@@" \o ToJson([calls |-> calls, seq |-> seq, done |-> done]))

(* ------------------------------------------------------------- instances *)
Op(et, mx, au, ai) == [etol |-> et, maxiter |-> mx, auto |-> au, autoiter |-> ai]
T == <<1, 20>>
SomeLevels == { <<1, 64>>, <<1, 8>>, <<1, 2>>, <<3, 2>> }
SomeCalls == { << Op(et, mx, TRUE, ai) >> : et \in {T, <<2, 3>>}, mx \in {2, 7}, ai \in 1..3 }
      \cup { << Op(et, mx, FALSE, 3) >> : et \in {T, <<2, 3>>}, mx \in 1..4 }
      \cup { << Op(T, 3, a, 1), Op(T, 4, b, 2) >> : a \in BOOLEAN, b \in BOOLEAN }
DeepCalls == SomeCalls \cup { << Op(et, 9, TRUE, ai) >> : et \in {T, <<1, 4>>}, ai \in 1..4 }
      \cup { << Op(T, 5, a, 2), Op(<<1, 4>>, 4, b, 1) >> : a \in BOOLEAN, b \in BOOLEAN }
=============================================================================
