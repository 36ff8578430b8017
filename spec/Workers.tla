------------------------------- MODULE Workers ------------------------------
(***************************************************************************)
(* C15.  Orbital solves in worker processes.                                *)
(*                                                                          *)
(* In every call the parent spawns one worker per solver, in order; each    *)
(* computes, writes its record under its own key into the dictionary of     *)
(* this call, and exits.  A worker may die at any point.  The parent joins  *)
(* all workers and hands every solver its own record; a missing record is   *)
(* an error.  Records are tagged <<solver, call>>, so that records of other *)
(* solvers or of earlier calls are recognisable.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Shapes,        \* set of <<rows, columns>>
          Calls, MaxDeaths, OrdersInLast    \* only the last call's order is free (keeps the tree small)

VARIABLES shape, call, pc, dict, res, parent, order, dead, deaths, hist
vars == <<shape, call, pc, dict, res, parent, order, dead, deaths, hist>>

(* solver ids in spawning order: columns outermost, as records of row, col *)
Ids == [k \in 1..(shape[1] * shape[2]) |-> <<((k - 1) % shape[1]) + 1, ((k - 1) \div shape[1]) + 1>>]
Wk == 1..(shape[1] * shape[2])
None == <<>>

Init == /\ shape \in Shapes
        /\ call = 1 /\ parent = "spawn" /\ deaths = 0 /\ order = <<>> /\ dead = {} /\ hist = <<>>
        /\ pc = [w \in Wk |-> "none"]
        /\ dict = [w \in Wk |-> None]
        /\ res = [w \in Wk |-> None]
Spawn == /\ parent = "spawn"
         /\ LET w == CHOOSE x \in Wk : pc[x] = "none" /\ \A y \in Wk : y < x => pc[y] # "none"
            IN  pc' = [pc EXCEPT ![w] = "run"]
         /\ parent' = IF \A x \in Wk : pc'[x] # "none" THEN "join" ELSE "spawn"
         /\ UNCHANGED <<shape, call, dict, res, order, dead, deaths, hist>>
Free == call = Calls \/ ~OrdersInLast
(* before the last call workers run one at a time, in order *)
MayRun(w) == Free \/ \A y \in Wk : y < w => pc[y] = "exit"
Write(w) == /\ pc[w] = "run" /\ MayRun(w)
            /\ dict' = [dict EXCEPT ![w] = <<w, call>>]
            /\ pc' = [pc EXCEPT ![w] = "wrote"]
            /\ order' = Append(order, w)
            /\ UNCHANGED <<shape, call, res, parent, dead, deaths, hist>>
Exit(w) == /\ pc[w] = "wrote" /\ pc' = [pc EXCEPT ![w] = "exit"]
           /\ UNCHANGED <<shape, call, dict, res, parent, order, dead, deaths, hist>>
(* death before the record is written, or after *)
Die(w) == /\ Free /\ deaths < MaxDeaths /\ pc[w] \in {"run", "wrote"}
          /\ dead' = dead \cup {<<w, IF pc[w] = "run" THEN "before" ELSE "after">>}
          /\ deaths' = deaths + 1
          /\ pc' = [pc EXCEPT ![w] = "exit"]
          /\ UNCHANGED <<shape, call, dict, res, parent, order, hist>>
Collect == /\ parent = "join" /\ \A w \in Wk : pc[w] = "exit"
           /\ hist' = Append(hist, [order |-> order, dead |-> dead])
           /\ IF \E w \in Wk : dict[w] = None
              THEN parent' = "error" /\ UNCHANGED <<res, call, pc, dict, order, dead>>
              ELSE /\ res' = dict
                   /\ IF call = Calls
                      THEN parent' = "done" /\ UNCHANGED <<call, pc, dict, order, dead>>
                      ELSE /\ parent' = "spawn" /\ call' = call + 1
                           /\ pc' = [w \in Wk |-> "none"] /\ dict' = [w \in Wk |-> None]
                           /\ order' = <<>> /\ dead' = {}
           /\ UNCHANGED <<shape, deaths>>
Next == Spawn \/ Collect \/ \E w \in Wk : Write(w) \/ Exit(w) \/ Die(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* a finished call gave every solver its own, current record *)
Own == parent = "done" => \A w \in Wk : res[w] = <<w, Calls>>
(* a lost record is an error, and only that is *)
Surfaces == /\ parent = "error" => \E w \in Wk : <<w, "before">> \in dead
            /\ parent = "done" => \A w \in Wk : <<w, "before">> \notin dead
(* the parent always finishes *)
Finishes == <>(parent \in {"done", "error"})

Emit == parent \in {"done", "error"} =>
  PrintT("@@" \o ToJson([shape |-> shape, hist |-> hist, outcome |-> parent, ids |-> Ids]))
=============================================================================
