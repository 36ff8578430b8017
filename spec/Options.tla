------------------------------ MODULE Options -------------------------------
(***************************************************************************)
(* C16.  Option dictionaries.                                               *)
(*                                                                          *)
(* Every entry point (constructor or loop) takes a dictionary.  Keys are    *)
(* matched whatever their case, an unknown key or an unacceptable value is  *)
(* an error, an accepted one changes exactly the setting it names.  Calls   *)
(* are independent: after a call with any dictionary, accepted or not, a    *)
(* call without one finds the defaults.                                     *)
(*                                                                          *)
(* Values are records [k: kind, s: text] so that kinds never mix.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Entries,      \* entry points explored
          MaxKeys       \* largest dictionary built here

VARIABLES entry, dict, phase, outcome, settings
vars == <<entry, dict, phase, outcome, settings>>

V(k, s) == [k |-> k, s |-> s]
T == V("b", "1")      F == V("b", "0")
Bad == V("s", "bogus")                       \* no option takes this value
Flag(n, d) == [n |-> n, d |-> d, ok |-> {T, F}, no |-> {Bad, V("lf", "0.5")}]
Num(n, d, vs) == [n |-> n, d |-> V("f", d), ok |-> {V("f", x) : x \in vs} \cup {V("f", d)}, no |-> {Bad, V("lf", "0.5")}]
IntO(n, d, vs) == [n |-> n, d |-> V("i", d), ok |-> {V("i", x) : x \in vs} \cup {V("i", d)}, no |-> {Bad, V("lf", "0.5")}]
One(n, d, vs) == [n |-> n, d |-> V("s", d), ok |-> {V("s", x) : x \in vs} \cup {V("s", d)},
                  no |-> {Bad, V("s", ""), V("lf", "0.5")} \cup {V("s", d \o "x")}]
Str(n, d, vs) == [n |-> n, d |-> V("s", d), ok |-> {V("s", x) : x \in vs}, no |-> {V("lf", "0.5")}]
Lst(n, d, vs, bad) == [n |-> n, d |-> V("lf", d), ok |-> {V("lf", x) : x \in vs} \cup {V("lf", d)},
                       no |-> {Bad} \cup {V("lf", x) : x \in bad}]

KSTable ==
  << One("interaction_type", "dft", {"ni"}), Flag("sym", F), Flag("fractional", F),
     IntO("xfunc_id", "1", {"9001", "101"}), IntO("cfunc_id", "12", {"9002"}), Str("xc_family", "lda", {"gga"}) >>
Table(e) ==
  CASE e = "ks" -> KSTable
    [] e = "part" -> KSTable \o
       << One("vp_calc_type", "component", {"potential_inversion"}),
          One("hxc_part_type", "exact", {"overlap_hxc_2", "overlap_hxc", "overlap_xc", "surprisal", "hartree"}),
          One("kinetic_part_type", "vonweiz", {"inversion", "libxcke", "none", "twoorbital", "fixed"}),
          Str("k_family", "gga", {"lda"}), IntO("ke_func_id", "5", {"500"}), Flag("disp", F),
          Flag("ab_sym", F), Flag("ens_spin_sym", F), Flag("isolated", F), Flag("fixed_q", F) >>
    [] e = "inv" ->
       << Flag("ab_sym", F), Flag("ens_spin_sym", F), Flag("use_iterative", F), Flag("disp", F),
          Flag("avoid_loop", F), One("invert_type", "wuyang", {"simple", "orbitalinvert"}),
          Num("k_val", "-1e-12", {"-0.5"}), Num("tol_lin_solver", "1e-2", {"1e-3"}),
          Num("tol_invert", "1e-12", {"1e-4"}), IntO("max_iter_lin_solver", "2000", {"7"}),
          IntO("max_iter_invert", "20", {"3"}), Num("res_factor", "1.0", {"0.0"}) >>
    [] e = "solver" ->
       << Flag("fractional", F), Flag("sym", F), Flag("iter_lin_solver", T), Flag("disp", T),
          Num("tol_orbital", "1e-15", {"1e-9"}), Num("tol_lin_solver", "1e-4", {"1e-3"}) >>
    [] e = "ks.scf" ->
       << Flag("disp", T), Flag("continuing", F), Flag("iterative", T), Flag("spinflipsym", F),
          Flag("auto_tol", F), IntO("maxiter", "100", {"2", "3"}), IntO("auto_tol_iter", "3", {"1"}),
          Num("e_tol", "1e-5", {"9.0"}), Num("alpha", "0.5", {"0.25", "1.0"}) >>
    [] e = "part.scf" ->
       << Num("e_tol", "1e-7", {"9.0"}), IntO("max_iter", "50", {"1", "3"}),
          Lst("alpha", "0.82", {"0.25", "0.25,0.75", "1.0"}, {"", "0.5,0.5,0.5"}),
          Lst("beta", "0.82", {"0.5"}, {}), One("calc_type", "pdft", {"sdft"}), Flag("disp", F),
          Flag("continuing", F), Flag("from_target_density", F), Flag("iterative", T), Flag("isolated", F),
          Flag("auto_tol", F), IntO("auto_tol_iter", "3", {"1"}), Flag("freeze_a", F), Flag("freeze_b", F) >>
Rows(e) == {Table(e)[i] : i \in 1..Len(Table(e))}
Names(e) == {r.n : r \in Rows(e)}
RowOf(e, n) == CHOOSE r \in Rows(e) : r.n = n
(* keys no entry point knows, and keys only another one knows *)
Foreign == UNION {Names(e) : e \in {"ks", "part", "inv", "solver", "ks.scf", "part.scf"}}
Unknown(e) == (Foreign \ Names(e)) \cup {"", "bogus", "alpha ", "e_tol_", "sym2", "__dict__", "maxiter1"}

(* Loops: what an option changes is decided by C14 and C23; here, that it   *)
(* changes something at all.  Context: other options under which it shows.  *)
E(n, v) == [n |-> n, st |-> "lower", v |-> v]
Context(e, n) ==
  CASE n = "auto_tol" -> <<E("e_tol", V("f", "9.0"))>>
    [] n = "auto_tol_iter" -> <<E("e_tol", V("f", "9.0")), E("auto_tol", T)>>
    [] n = "iterative" /\ e = "ks.scf" -> <<E("continuing", T)>>
    [] OTHER -> <<>>
Shows(e) ==
  CASE e = "ks.scf" -> {"disp", "continuing", "iterative", "spinflipsym", "maxiter", "e_tol", "alpha", "auto_tol"}
    [] e = "part.scf" -> {"disp", "continuing", "max_iter", "e_tol", "alpha", "calc_type", "isolated",
                          "from_target_density", "freeze_a", "freeze_b", "auto_tol", "auto_tol_iter"}
    [] OTHER -> {}

(* combinations the object itself refuses or does not build *)
Get(e, d, n) == IF \E i \in 1..Len(d) : d[i].n = n
                THEN LET i == CHOOSE j \in 1..Len(d) : d[j].n = n IN d[i].v ELSE RowOf(e, n).d

Init == /\ entry \in Entries /\ dict = <<>> /\ phase = "build" /\ outcome = "none" /\ settings = <<>>

(* a first entry that asks for something other than the default *)
Plain(x) == /\ x.n \in Names(entry) /\ x.st = "lower"
            /\ x.v \in RowOf(entry, x.n).ok /\ x.v # RowOf(entry, x.n).d
Styles == {"lower", "upper", "title"}
Add ==
  /\ phase = "build" /\ Len(dict) < MaxKeys
  /\ \/ \E n \in Names(entry) \ {dict[i].n : i \in 1..Len(dict)} :
          LET r == RowOf(entry, n) IN
          \E st \in IF Len(dict) = 0 THEN Styles ELSE {"upper"}, v \in r.ok \cup r.no :
             /\ IF Len(dict) = 0 THEN TRUE
                ELSE Plain(dict[1]) /\ (v \in r.no => v = Bad)
             /\ dict' = Append(dict, [n |-> n, st |-> st, v |-> v])
     \/ \E n \in Unknown(entry) :
          /\ IF Len(dict) = 0 THEN TRUE ELSE n = "bogus" /\ Plain(dict[1])
          /\ dict' = Append(dict, [n |-> n, st |-> "lower", v |-> T])
  /\ UNCHANGED <<entry, phase, outcome, settings>>

Acceptable(e, d) == \A i \in 1..Len(d) : d[i].n \in Names(e) /\ d[i].v \in RowOf(e, d[i].n).ok
Submit ==
  /\ phase = "build" /\ phase' = "done"
  /\ IF Acceptable(entry, dict)
     THEN /\ outcome' = "accepted"
          /\ settings' = [i \in 1..Len(Table(entry)) |->
                            [n |-> Table(entry)[i].n, v |-> Get(entry, dict, Table(entry)[i].n)]]
     ELSE outcome' = "rejected" /\ settings' = <<>>
  /\ UNCHANGED <<entry, dict>>
Next == Add \/ Submit
Spec == Init /\ [][Next]_vars

(* an accepted dictionary changes exactly the settings it names *)
Exactly == (phase = "done" /\ outcome = "accepted") =>
   \A i \in 1..Len(settings) :
     LET named == {k \in 1..Len(dict) : dict[k].n = settings[i].n}
     IN  IF named = {} THEN settings[i].v = RowOf(entry, settings[i].n).d
         ELSE \A k \in named : settings[i].v = dict[k].v
Strict == (phase = "done" /\ \E i \in 1..Len(dict) : dict[i].n \notin Names(entry)) => outcome = "rejected"
Emit == phase = "done" => PrintT("@@" \o ToJson(
  [entry |-> entry, dict |-> dict, outcome |-> outcome, settings |-> settings,
   ctx |-> IF Len(dict) = 1 /\ outcome = "accepted" THEN Context(entry, dict[1].n) ELSE <<>>,
   shows |-> Len(dict) = 1 /\ outcome = "accepted" /\ dict[1].n \in Shows(entry)
             /\ dict[1].v # RowOf(entry, dict[1].n).d,
   defaults |-> [i \in 1..Len(Table(entry)) |-> [n |-> Table(entry)[i].n, v |-> Table(entry)[i].d]]]))
=============================================================================
