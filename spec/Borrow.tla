-------------------------------- MODULE Borrow --------------------------------
(***************************************************************************)
(* May a part of the vector be kept across a call?  The client takes a part *)
(* (a slice, an element, an iterator, a reference, ...), makes a call and   *)
(* uses the part afterwards.  Some calls need the vector for themselves     *)
(* because they drop, move or hand over its values, or move the vector:     *)
(* what refers to the values must not be used after them.  Conversely a     *)
(* value that refers to something of a shorter life must not be stored.     *)
(* TLC computes which (part, call) lead to a use of dead values, the        *)
(* compiler is asked (borrow/) which of them it accepts.                    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json, IOUtils

\* copies, independent of the vector; all other parts refer to it
Copies == {"clone", "std", "value", "got", "slice_std", "len", "max", "folded"}
Parts == Copies \cup
  {"slice", "whole", "split", "first", "last", "chunks", "elem", "index", "iter", "iter_cloned", "map", "filter", "ref", "mut", "iter_ref", "iter_mut", "vec",
   "s_slice", "s_split", "s_first", "s_last", "s_chunks", "s_elem", "s_iter", "s_iter_cloned", "s_map", "s_filter", "s_ref", "s_mut", "s_iter_ref", "s_iter_mut"}
\* calls any number of threads may make at any time, and calls that are made alone
Together == {"push", "extend", "get", "set", "swap", "fill", "equal", "measure"}
Alone == {"clear", "reserve", "into_inner", "to_vec", "into_iter", "drop", "assign", "replace", "swap_vec", "move_", "end"}
\* ways to store the value
Store == {"push", "pushf", "extend", "set", "replace", "update", "fill", "fill_with", "s_fill", "s_elem", "iter"}

Rows == ndJsonDeserialize(IOEnv.BORROWED)          \* part, call, granted
VARIABLES part, call, at, alive, bad
vars == <<part, call, at, alive, bad>>
\* alive: what the part (the stored value) refers to still is where it was
Init == /\ \/ part \in Parts /\ call \in Together \cup Alone
           \/ part = "stored" /\ call \in Store
        /\ at = "start" /\ alive = TRUE /\ bad = FALSE
Take == at = "start" /\ at' = "taken" /\ UNCHANGED <<part, call, alive, bad>>
Make == at = "taken" /\ at' = "called" /\ alive' = (alive /\ part # "stored" /\ call \notin Alone) /\ UNCHANGED <<part, call, bad>>
\* the values that the vector keeps are used by whoever reads them later
Use == at = "called" /\ bad' = (bad \/ (~alive /\ part \notin Copies)) /\ UNCHANGED <<part, call, at, alive>>
Next == Take \/ Make \/ Use
Spec == Init /\ [][Next]_vars

ASSUME TLCSet(1, {})
Collect == bad => TLCSet(1, TLCGet(1) \cup {<<part, call>>})
Report ==
  LET U == TLCGet(1)
      row(i) == <<Rows[i].part, Rows[i].call>>
  IN /\ \A i \in 1..Len(Rows) :
          /\ (Rows[i].granted = 1 /\ row(i) \in U) => PrintT(<<"UNSOUND", i>>)
          /\ (Rows[i].granted = 0 /\ row(i) \notin U) => PrintT(<<"REFUSED", i>>)
     /\ {row(i) : i \in 1..Len(Rows)} = (Parts \X (Together \cup Alone)) \cup ({"stored"} \X Store) \/ PrintT(<<"ROWS">>)
     /\ PrintT(<<"MISUSABLE", Cardinality(U)>>)
=============================================================================
