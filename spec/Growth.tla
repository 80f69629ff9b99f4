------------------------------- MODULE Growth -------------------------------
(***************************************************************************)
(* The growth protocol alone, for any number of threads and any capacity:   *)
(* reserve positions, wait until the storage reaches them or for the turn   *)
(* to enlarge it, write.  And len(), which walks over what is written.      *)
(*                                                                         *)
(* The invariants are proved (GrowthProof.tla, TLAPS); TLC checks them too, *)
(* with progress, on small instances, and that Impl refines this module     *)
(* (MCImpl!RefinesGrowth).                                                  *)
(*                                                                         *)
(*   r      number of reserved positions       cap    published capacity    *)
(*   alloc  memory that exists                 w      positions written      *)
(*   lw     cached length                                                    *)
(*   pc, b, n, k   thread: where it is; first position, number, written      *)
(*   l, u, m       len(): counted so far; where it must stop; any number     *)
(*                 such that the first m positions were written at its call  *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS T, Limit, N0, C0,
  Sizes         \* of batches and of the storage: Nat
ASSUME Params == Limit \in Nat /\ N0 \in Nat /\ C0 \in Nat /\ N0 <= C0 /\ C0 <= Limit /\ Sizes \subseteq Nat

VARIABLES r, cap, alloc, w, lw, pc, b, n, k, l, u, m
gvars == <<r, cap, alloc, w, lw, pc, b, n, k, l, u, m>>

PC == {"idle", "permit", "grow", "store", "write", "len1", "len2", "len3", "len4", "len5"}
Waits == {"permit", "grow", "store"}
Owns == {"permit", "grow", "store", "write"}
Lens == {"len1", "len2", "len3", "len4", "len5"}

Zero == [t \in T |-> 0]
Init ==
  /\ r = N0 /\ cap = C0 /\ alloc = C0 /\ lw = N0
  /\ w = 0..N0 - 1
  /\ pc = [t \in T |-> "idle"]
  /\ b = Zero /\ n = Zero /\ k = Zero /\ l = Zero /\ u = Zero /\ m = Zero

Reserve(t, j) ==                        \* j positions; a batch that goes beyond the maximum panics
  /\ pc[t] = "idle"
  /\ r' = r + j
  /\ IF j > 0 /\ r + j <= Limit
     THEN /\ pc' = [pc EXCEPT ![t] = "permit"]
          /\ b' = [b EXCEPT ![t] = r] /\ n' = [n EXCEPT ![t] = j] /\ k' = [k EXCEPT ![t] = 0]
     ELSE UNCHANGED <<pc, b, n, k>>
  /\ UNCHANGED <<cap, alloc, w, lw, l, u, m>>
Enter(t) ==                             \* inside the storage
  /\ pc[t] = "permit" /\ b[t] + n[t] <= cap
  /\ pc' = [pc EXCEPT ![t] = "write"]
  /\ UNCHANGED <<r, cap, alloc, w, lw, b, n, k, l, u, m>>
Elect(t) ==                             \* across or just behind its end
  /\ pc[t] = "permit" /\ b[t] <= cap /\ cap < b[t] + n[t]
  /\ pc' = [pc EXCEPT ![t] = "grow"]
  /\ UNCHANGED <<r, cap, alloc, w, lw, b, n, k, l, u, m>>
Grow(t, c) ==                           \* new memory of any size that suffices
  /\ pc[t] = "grow" /\ b[t] + n[t] <= c
  /\ alloc' = c /\ pc' = [pc EXCEPT ![t] = "store"]
  /\ UNCHANGED <<r, cap, w, lw, b, n, k, l, u, m>>
Store(t) ==                             \* becomes visible
  /\ pc[t] = "store"
  /\ cap' = alloc /\ pc' = [pc EXCEPT ![t] = "write"]
  /\ UNCHANGED <<r, alloc, w, lw, b, n, k, l, u, m>>
Rest(t) == pc' = [pc EXCEPT ![t] = "idle"] /\ b' = [b EXCEPT ![t] = 0] /\ n' = [n EXCEPT ![t] = 0] /\ k' = [k EXCEPT ![t] = 0]
Publish(t) ==
  /\ pc[t] = "write"
  /\ w' = w \union {b[t] + k[t]}
  /\ IF k[t] + 1 = n[t] THEN Rest(t)
     ELSE k' = [k EXCEPT ![t] = k[t] + 1] /\ UNCHANGED <<pc, b, n>>
  /\ UNCHANGED <<r, cap, alloc, lw, l, u, m>>
Abort(t) ==                             \* the caller's code panicked
  /\ pc[t] = "write" /\ Rest(t)
  /\ UNCHANGED <<r, cap, alloc, w, lw, l, u, m>>

Prefix(j) == \A q \in 0..j - 1 : q \in w
LenCall(t, j) ==
  /\ pc[t] = "idle" /\ Prefix(j)
  /\ pc' = [pc EXCEPT ![t] = "len1"] /\ m' = [m EXCEPT ![t] = j]
  /\ UNCHANGED <<r, cap, alloc, w, lw, b, n, k, l, u>>
LenCached(t) ==
  /\ pc[t] = "len1"
  /\ pc' = [pc EXCEPT ![t] = "len2"] /\ l' = [l EXCEPT ![t] = lw]
  /\ UNCHANGED <<r, cap, alloc, w, lw, b, n, k, u, m>>
LenCap(t) ==
  /\ pc[t] = "len2"
  /\ pc' = [pc EXCEPT ![t] = "len3"] /\ u' = [u EXCEPT ![t] = cap]
  /\ UNCHANGED <<r, cap, alloc, w, lw, b, n, k, l, m>>
LenReserved(t) ==
  /\ pc[t] = "len3"
  /\ pc' = [pc EXCEPT ![t] = "len4"] /\ u' = [u EXCEPT ![t] = IF r < u[t] THEN r ELSE u[t]]
  /\ UNCHANGED <<r, cap, alloc, w, lw, b, n, k, l, m>>
LenWalk(t) ==
  /\ pc[t] = "len4" /\ l[t] < u[t] /\ l[t] \in w
  /\ l' = [l EXCEPT ![t] = l[t] + 1]
  /\ UNCHANGED <<r, cap, alloc, w, lw, pc, b, n, k, u, m>>
LenStop(t) ==
  /\ pc[t] = "len4" /\ (l[t] >= u[t] \/ l[t] \notin w)
  /\ pc' = [pc EXCEPT ![t] = "len5"]
  /\ UNCHANGED <<r, cap, alloc, w, lw, b, n, k, l, u, m>>
LenReturn(t) ==                         \* returns l[t]
  /\ pc[t] = "len5"
  /\ lw' = (IF lw < l[t] THEN l[t] ELSE lw)
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ l' = [l EXCEPT ![t] = 0] /\ u' = [u EXCEPT ![t] = 0] /\ m' = [m EXCEPT ![t] = 0]
  /\ UNCHANGED <<r, cap, alloc, w, b, n, k>>

Act(t) ==
  \/ \E j \in Sizes : Reserve(t, j)
  \/ Enter(t) \/ Elect(t) \/ (\E c \in Sizes : Grow(t, c)) \/ Store(t) \/ Publish(t) \/ Abort(t)
  \/ \E j \in Sizes : LenCall(t, j)
  \/ LenCached(t) \/ LenCap(t) \/ LenReserved(t) \/ LenWalk(t) \/ LenStop(t) \/ LenReturn(t)
Next == \E t \in T : Act(t)
Spec == Init /\ [][Next]_gvars

(******************************* what is claimed *****************************)
\* C01, C02: a position has one owner, is written at most once, and inside the memory that exists
Apart == \A t, v \in T : t # v /\ pc[t] \in Owns /\ pc[v] \in Owns => b[t] + n[t] <= b[v] \/ b[v] + n[v] <= b[t]
WriteFresh == \A t \in T : pc[t] = "write" => b[t] + k[t] \notin w
WriteInside == \A t \in T : pc[t] = "write" => b[t] + k[t] < cap
Fits == cap <= alloc /\ r >= 0 /\ \A q \in w : q < cap /\ q < r
\* C08: nothing beyond the maximum
Within == \A q \in w : q < Limit
\* C01: one thread enlarges the storage at a time
OneGrower == \A t, v \in T : pc[t] \in {"grow", "store"} /\ pc[v] \in {"grow", "store"} => t = v
\* C07: of the threads that wait, one can go on
Moves == \A t \in T : pc[t] = "permit" =>
           \E v \in T : pc[v] \in {"grow", "store"} \/ (pc[v] = "permit" /\ b[v] <= cap)
\* C03: len() is the length of a prefix that was written at some moment of the call
LenOk == \A t \in T : pc[t] = "len5" => m[t] <= l[t] /\ Prefix(l[t])
LenInside == \A t \in T : pc[t] = "len4" => u[t] <= cap
LenW == Prefix(lw)
Claims == Apart /\ WriteFresh /\ WriteInside /\ Fits /\ Within /\ OneGrower /\ Moves /\ LenOk /\ LenInside /\ LenW

(**************************** the inductive invariant ************************)
TypeOK ==
  /\ r \in Nat /\ cap \in Nat /\ alloc \in Nat /\ lw \in Nat /\ w \subseteq Nat
  /\ pc \in [T -> PC]
  /\ b \in [T -> Nat] /\ n \in [T -> Nat] /\ k \in [T -> Nat]
  /\ l \in [T -> Nat] /\ u \in [T -> Nat] /\ m \in [T -> Nat]
Own == \A t \in T : pc[t] \in Owns => k[t] < n[t] /\ b[t] + n[t] <= r /\ b[t] + n[t] <= Limit
Fresh == \A t \in T : pc[t] \in Owns => \A q \in b[t] + k[t]..b[t] + n[t] - 1 : q \notin w
Turn == \A t \in T : pc[t] \in {"grow", "store"} => b[t] <= cap /\ cap < b[t] + n[t]
Enough == \A t \in T : pc[t] = "store" => b[t] + n[t] <= alloc
In == \A t \in T : pc[t] = "write" => b[t] + n[t] <= cap
Covered(q) == \E v \in T : pc[v] \in Waits /\ b[v] <= q /\ q < b[v] + n[v]
AllCovered == r <= Limit => \A q \in cap..r - 1 : Covered(q)
WaitCovered == \A t \in T : pc[t] = "permit" => \A q \in cap..b[t] - 1 : Covered(q)
LenPrefix == \A t \in T : pc[t] \in Lens => Prefix(m[t]) /\ (pc[t] # "len1" => Prefix(l[t]))
LenUntil == \A t \in T : pc[t] \in {"len3", "len4"} => m[t] <= u[t] /\ u[t] <= cap
LenDone == \A t \in T : pc[t] = "len5" => m[t] <= l[t]
Inv ==
  /\ TypeOK /\ Fits /\ Within /\ Own /\ Apart /\ Fresh /\ Turn /\ Enough /\ In
  /\ AllCovered /\ WaitCovered /\ LenW /\ LenPrefix /\ LenUntil /\ LenDone
=============================================================================
