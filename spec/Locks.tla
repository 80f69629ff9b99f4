------------------------------- MODULE Locks -------------------------------
(***************************************************************************)
(* How elements are reserved, for any number of threads and elements: a     *)
(* thread that reserves several takes them in the order of their positions. *)
(*                                                                         *)
(*   h[t]   positions thread t has reserved                                 *)
(*   q[t]   position it waits for, -1 if none                               *)
(*   v[p]   value, Unset until the element exists                           *)
(*                                                                         *)
(* A reserved element is released in the end, whatever the holder's code    *)
(* does (it returns or panics): that code is not part of this module.       *)
(* The claims are proved (LocksProof.tla, TLAPS); TLC checks that Impl       *)
(* refines this module (MCImpl!RefinesLocks).                               *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS T, Limit, Values, Unset
ASSUME LParams == Limit \in Nat /\ Unset \notin Values

VARIABLES h, q, v
lvars == <<h, q, v>>
Pos == 0..Limit - 1
Any == Values \union {Unset}

LInit ==
  /\ h = [t \in T |-> {}] /\ q = [t \in T |-> -1] /\ v \in [Pos -> Any]

\* what a thread that holds s may wait for: an element, behind all it holds
May(s, x) == x = -1 \/ (x \in Pos /\ v[x] # Unset /\ \A p \in s : p < x)
Free(p) == \A t \in T : p \notin h[t]
\* elements are made by any thread; only the holder changes one
Change(t) ==
  /\ v' \in [Pos -> Any]
  /\ \A p \in Pos : v'[p] # v[p] => v'[p] # Unset /\ (v[p] = Unset \/ p \in h'[t])
Ask(t) == q'[t] \in Pos \union {-1} /\ May(h'[t], q'[t]) /\ q' = [q EXCEPT ![t] = q'[t]]
\* compare-exchange; it waited for p, or finds it free without waiting
Take(t, p) ==
  /\ q[t] = p \/ q[t] = -1
  /\ v[p] # Unset /\ May(h[t], p) /\ Free(p)
  /\ h' = [h EXCEPT ![t] = h[t] \union {p}]
  /\ Ask(t) /\ Change(t)
\* releases some or none of what it holds; what it waits for next
Release(t) ==
  /\ h'[t] \in SUBSET h[t] /\ h' = [h EXCEPT ![t] = h'[t]]
  /\ Ask(t) /\ Change(t)
LAct(t) == (\E p \in Pos : Take(t, p)) \/ Release(t)
LNext == \E t \in T : LAct(t)
LSpec == LInit /\ [][LNext]_lvars

\* C05, C06: a reserved element has one holder
Alone == \A t, x \in T : t # x => \A p \in Pos : ~(p \in h[t] /\ p \in h[x])
\* C07: when threads wait, one of them can go on, or one that holds does not wait (and will release)
Goes == \A t \in T : q[t] # -1 =>
          \E x \in T : (q[x] # -1 /\ Free(q[x])) \/ (q[x] = -1 /\ h[x] # {})
Exists == \A t \in T : (\A p \in h[t] : v[p] # Unset) /\ (q[t] # -1 => v[q[t]] # Unset)
LClaims == Alone /\ Goes /\ Exists
\* C05: what one thread has reserved is not changed by another
Kept == \A t \in T : LAct(t) => \A x \in T : x # t => \A p \in h[x] : v'[p] = v[p]

LType == h \in [T -> SUBSET Pos] /\ q \in [T -> Pos \union {-1}] /\ v \in [Pos -> Any]
Upwards == \A t \in T : q[t] # -1 => \A p \in h[t] : p < q[t]
LInv == LType /\ Alone /\ Upwards /\ Exists
=============================================================================
