------------------------------- MODULE InvLoop -------------------------------
(***************************************************************************)
(* C24.  Iteration limits of an inversion, judged on recorded runs.         *)
(*                                                                          *)
(* The same inversion is run with the limits 1, 2, .. K.  The specification *)
(* of the loop: iterate until the method has a reason of its own to stop    *)
(* (target met, hopeless) or the limit is reached; success is exactly that  *)
(* the target was met.  So a trace of runs is a behaviour of one loop       *)
(* observed through growing windows: as long as nothing has stopped it,     *)
(* the run uses up its limit; after it has stopped for its own reason, all  *)
(* later runs are that run.                                                 *)
(*                                                                          *)
(* A run: limit, nfev, res (identity of the residual reported), own (a      *)
(* reason of its own to stop), meets (the reported residual is within the   *)
(* tolerance), close (the potential's own orbitals give the density, found  *)
(* independently), flag (success reported).                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES id, k, why
vars == <<id, k, why>>
Runs == Traces[id].runs
Run == Runs[k]
Before == Runs[k - 1]
(* what the loop has to do in run k *)
Stopped == k > 1 /\ Before.own
Broken ==
  IF Run.nfev < 1 \/ Run.nfev > Run.limit THEN "iterations beyond the limit"
  ELSE IF Run.flag /\ ~Run.close THEN "success without the density"
  ELSE IF Run.flag /\ ~Run.meets THEN "success with a residual above the tolerance"
  ELSE IF ~Run.flag /\ Run.meets THEN "failure reported with the target met"
  ELSE IF ~Run.own /\ Run.nfev # Run.limit THEN "stopped without a reason before the limit"
  ELSE IF Stopped /\ (Run.nfev # Before.nfev \/ Run.flag # Before.flag \/ Run.res # Before.res) THEN "went on after the reason to stop"
  ELSE IF ~Stopped /\ k > 1 /\ Run.nfev <= Before.nfev THEN "stopped where a shorter run went on"
  ELSE ""
Init == id \in 1..Len(Traces) /\ k = 1 /\ why = ""
Step == /\ k <= Len(Runs) /\ why = ""
        /\ why' = Broken /\ k' = k + 1 /\ UNCHANGED id
Next == Step
Spec == Init /\ [][Next]_vars
Done == k > Len(Runs) \/ why # ""
Emit == Done => PrintT("@@" \o ToJson([id |-> id, why |-> why, at |-> k - 1]))
=============================================================================
