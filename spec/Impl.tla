-------------------------------- MODULE Impl --------------------------------
(***************************************************************************)
(* The algorithm of the crate, one action per atomic access.                *)
(*                                                                         *)
(*   lenR, lenW   ConcurrentVecState.len_reserved / len_written             *)
(*   cap          capacity of the pinned storage; alloc: memory that exists *)
(*   slot[p]      ConcurrentOption of position p: state and value           *)
(*   ct[t]        program counter and locals of thread t                    *)
(*                                                                         *)
(* The variables of AbsVec run in lockstep: the action at which a call      *)
(* takes effect also takes the step of AbsVec with the same outcome, and    *)
(* `bad` is set when AbsVec has no such step.  ~bad is the refinement.      *)
(* Loops that wait (spin on a reserved element, wait for storage) are       *)
(* actions that are disabled until the wait is over, so that a call that    *)
(* can never return is a TLC deadlock.                                      *)
(*                                                                         *)
(* Variant selects design mistakes (among them the defects of the crate     *)
(* that were repaired); every one of them must violate an invariant or      *)
(* deadlock, "" must not.                                                   *)
(***************************************************************************)
EXTENDS AbsVec

CONSTANTS
  Menu,         \* calls a thread may make
  Calls,        \* number of calls per thread
  N0,           \* number of elements at the beginning
  CapSteps,     \* capacities the storage can have; the largest is the maximum
  Variant

VARIABLES lenR, lenW, cap, alloc, slot, ct, bad
cvars == <<lenR, lenW, cap, alloc, slot, ct, bad>>
vars == <<avars, cvars>>

MaxCap == CHOOSE m \in CapSteps : \A n \in CapSteps : n <= m
NextCap(n) == CHOOSE m \in CapSteps : m >= n /\ \A k \in CapSteps : k >= n => m <= k
Clients == Threads \ {0}
Slots == 0..MaxCap - 1
Torn == 0 - 1
None == [s |-> "none", v |-> 0]
Some(v) == [s |-> "some", v |-> v]

NoCt == [pc |-> "idle", made |-> 0, o |-> "", a |-> <<>>, p |-> -1, to |-> "", idx |-> 0, n |-> 0, k |-> 0,
         lw |-> 0, until |-> 0, len |-> 0, q1 |-> 0, q2 |-> 0, x |-> 0, out |-> <<>>, rk |-> "", r |-> <<>>]

Init ==
  /\ cells = [i \in 1..N0 |-> i] /\ cp = N0 /\ rsv = N0 /\ maxc = MaxCap /\ capL = 0
  /\ reg = NoReg /\ th = [t \in Threads |-> Nil]
  /\ lenR = N0 /\ lenW = N0 /\ cap = NextCap(N0) /\ alloc = NextCap(N0)
  /\ slot = [p \in Slots |-> IF p < N0 THEN Some(p + 1) ELSE None]
  /\ ct = [t \in Clients |-> NoCt]
  /\ bad = ""

(******************************** lockstep **********************************)
\* this action is where AbsVec takes a step with outcome so far [k, r] after which its values are cs
LpX(t, k, r, cs, fin) ==
  LET A == Step(t, [k |-> k, r |-> r]) /\ cells' = cs /\ (th'[t].st = "done") = fin IN
  IF ENABLED A THEN A /\ bad' = bad
  ELSE bad' = "no such step" /\ UNCHANGED avars
LpTo(t, k, r, cs) == LpX(t, k, r, cs, TRUE)
Lp(t, k, r) == LpX(t, k, r, cells, TRUE)      \* the call is decided, no value changes
Part1(t, k, r) == LpX(t, k, r, cells, FALSE)  \* a part of the call
Quiet == UNCHANGED avars /\ bad' = bad
Go(t, f) == ct' = [ct EXCEPT ![t] = f]
\* the call has its result
End(c, k, r) == [c EXCEPT !.pc = "ret", !.rk = k, !.r = r]

(********************************** calls ***********************************)
\* values are numbered so that no two calls write the same one
Val(t, c, j) == 100 * t + 10 * c.made + j
Args(t, c, m) == CASE m.o \in {"push", "pushf", "fill", "idxof"} -> IF m.o = "idxof" THEN m.a ELSE <<Val(t, c, 0)>>
                   [] m.o = "ext" -> [j \in 1..m.a[1] |-> Val(t, c, j - 1)]
                   [] m.o \in {"rep", "upd"} -> <<m.a[1], Val(t, c, 0)>>
                   [] OTHER -> m.a
First(m) == CASE m.o \in {"push", "pushf", "ext"} -> "reserve"
              [] m.o = "cap" -> "cap"
              [] m.o \in {"gcl", "raw"} -> "rlen"
              [] OTHER -> "len1"
Begin(t) ==
  LET c == ct[t] IN
  /\ c.pc = "idle" /\ c.made < Calls
  /\ \E m \in Menu :
       LET a == Args(t, c, m) IN
       /\ Call(t, [o |-> m.o, s |-> 0, p |-> m.p, a |-> a, a0 |-> MaxCap, c |-> 0])
       /\ Go(t, [NoCt EXCEPT !.pc = First(m), !.made = c.made + 1, !.o = m.o, !.a = a, !.p = m.p, !.to = "lenret"])
  /\ UNCHANGED <<lenR, lenW, cap, alloc, slot, bad>>
Return(t) ==
  LET c == ct[t] IN
  /\ c.pc = "ret"
  /\ IF th[t].st = "done" /\ th[t].k = c.rk /\ th[t].r = c.r THEN Ret(t) /\ bad' = bad
     ELSE bad' = "other result" /\ UNCHANGED avars
  /\ Go(t, [NoCt EXCEPT !.made = c.made])
  /\ UNCHANGED <<lenR, lenW, cap, alloc, slot>>

(********************************** growth **********************************)
Count(c) == IF c.o = "ext" THEN Len(c.a) ELSE 1
OutG(c) == IF c.o = "pushf" THEN <<c.idx, c.idx>> ELSE <<c.idx>>
Reserve1(t) ==                                        \* len_reserved.fetch_add
  LET c == ct[t] n == Count(c) f == [c EXCEPT !.idx = lenR, !.n = n] IN
  /\ c.pc = "reserve"
  /\ lenR' = lenR + n
  /\ UNCHANGED <<lenW, cap, alloc, slot>>
  /\ IF n > 0 /\ lenR + n > MaxCap
     THEN Lp(t, "panic", <<>>) /\ Go(t, End(f, "panic", <<>>))
     ELSE /\ Part1(t, "ok", OutG(f))
          /\ Go(t, [f EXCEPT !.pc = IF n = 0 THEN "write" ELSE IF Variant = "closure-before-growth" /\ c.o = "pushf" THEN "closure" ELSE "permit"])
\* write permit: the positions are inside, contain, or lie behind the end of the storage
Permit(t) ==
  LET c == ct[t] last == c.idx + c.n - 1
      after == IF c.o = "pushf" /\ Variant # "closure-before-growth" THEN "closure" ELSE "write"
      edge == IF Variant = "permit-edge" THEN c.idx = cap ELSE c.idx <= cap
      just == IF Variant = "permit-first" THEN c.idx < cap ELSE last < cap
  IN /\ c.pc = "permit"
     /\ just \/ edge                                  \* otherwise: spin
     /\ Go(t, [c EXCEPT !.pc = IF just THEN after ELSE "grow", !.to = after])
     /\ Quiet /\ UNCHANGED <<lenR, lenW, cap, alloc, slot>>
Grow1(t) ==                                           \* new fragments, filled with empty elements
  LET c == ct[t] new == NextCap(c.idx + c.n) IN
  /\ c.pc = "grow"
  /\ IF Variant = "capacity-first" THEN cap' = new /\ UNCHANGED <<alloc, slot>>
     ELSE /\ alloc' = new
          /\ slot' = [p \in Slots |-> IF p >= cap /\ p < new THEN None ELSE slot[p]]
          /\ UNCHANGED cap
  /\ Go(t, [c EXCEPT !.pc = "grow2"])
  /\ Quiet /\ UNCHANGED <<lenR, lenW>>
Grow2(t) ==                                           \* capacity.store
  LET c == ct[t] new == NextCap(c.idx + c.n) IN
  /\ c.pc = "grow2"
  /\ IF Variant = "capacity-first" THEN alloc' = new /\ UNCHANGED cap ELSE cap' = new /\ UNCHANGED alloc
  /\ Go(t, [c EXCEPT !.pc = c.to])
  /\ Quiet /\ UNCHANGED <<lenR, lenW, slot>>
Closure(t) ==                                         \* f(idx); may panic
  LET c == ct[t] IN
  /\ c.pc = "closure"
  /\ IF c.p >= 0 THEN Lp(t, "panic", <<>>) /\ Go(t, End(c, "panic", <<>>))
     ELSE Quiet /\ Go(t, [c EXCEPT !.pc = IF Variant = "closure-before-growth" THEN "permit" ELSE "write"])
  /\ UNCHANGED <<lenR, lenW, cap, alloc, slot>>
Touch(p) == IF p < alloc THEN TRUE ELSE FALSE
Write(t) ==                                           \* initialize_unchecked: value, then state
  LET c == ct[t] p == c.idx + c.k IN
  /\ c.pc = "write"
  /\ UNCHANGED <<lenR, lenW, cap, alloc>>
  /\ IF c.k = c.n THEN Lp(t, "ok", OutG(c)) /\ Go(t, End(c, "ok", OutG(c))) /\ UNCHANGED slot       \* nothing to write
     ELSE /\ IF Touch(p) THEN Quiet ELSE UNCHANGED avars /\ bad' = "outside storage"
          /\ slot' = [slot EXCEPT ![p] = IF Variant = "state-before-value" THEN [s |-> "some", v |-> Torn] ELSE [@ EXCEPT !.v = c.a[c.k + 1]]]
          /\ Go(t, [c EXCEPT !.pc = "publish"])
Publish1(t) ==
  LET c == ct[t] p == c.idx + c.k IN
  /\ c.pc = "publish"
  /\ UNCHANGED <<lenR, lenW, cap, alloc>>
  /\ slot' = [slot EXCEPT ![p] = Some(c.a[c.k + 1])]
  /\ LpX(t, "ok", OutG(c), Put(cells, p, c.a[c.k + 1]), c.k + 1 = c.n)
  /\ Go(t, IF c.k + 1 = c.n THEN End(c, "ok", OutG(c)) ELSE [c EXCEPT !.pc = "write", !.k = @ + 1])

(************************************ len ***********************************)
Len1(t) == ct[t].pc = "len1" /\ Go(t, [ct[t] EXCEPT !.pc = "len2", !.lw = lenW]) /\ Quiet /\ UNCHANGED <<lenR, lenW, cap, alloc, slot>>
Len2(t) == ct[t].pc = "len2" /\ Go(t, [ct[t] EXCEPT !.pc = "len3", !.until = cap]) /\ Quiet /\ UNCHANGED <<lenR, lenW, cap, alloc, slot>>
Len3(t) ==
  LET c == ct[t] IN
  /\ c.pc = "len3"
  /\ Go(t, [c EXCEPT !.pc = "len4", !.until = IF Variant = "len-reserved" THEN lenR ELSE Min2(@, lenR), !.len = c.lw])
  /\ Quiet /\ UNCHANGED <<lenR, lenW, cap, alloc, slot>>
Counts(p) == IF Variant = "len-some-only" THEN slot[p].s = "some" ELSE slot[p].s # "none"
Len4(t) ==                                            \* one element after the other
  LET c == ct[t] IN
  /\ c.pc = "len4"
  /\ UNCHANGED <<lenR, lenW, cap, alloc, slot>>
  /\ IF c.len < c.until /\ ~Touch(c.len) THEN bad' = "outside storage" /\ UNCHANGED avars /\ Go(t, [c EXCEPT !.pc = "len5"])
     ELSE /\ Quiet
          /\ IF c.len < c.until /\ (Counts(c.len) \/ Variant = "len-reserved") THEN Go(t, [c EXCEPT !.len = @ + 1])
             ELSE Go(t, [c EXCEPT !.pc = "len5"])
Len5(t) ==                                            \* len_written.fetch_max
  LET c == ct[t]
      out == c.o \in {"len", "isempty"}
  IN
  /\ c.pc = "len5"
  /\ lenW' = IF Variant = "len-add" THEN lenW + (c.len - c.lw) ELSE Max2(lenW, c.len)
  /\ UNCHANGED <<lenR, cap, alloc, slot>>
  /\ CASE c.o = "len" -> Lp(t, "ok", <<c.len>>) /\ Go(t, End(c, "ok", <<c.len>>))
       [] c.o = "isempty" -> LET b == IF c.len = 0 THEN 1 ELSE 0 IN Lp(t, "ok", <<b>>) /\ Go(t, End(c, "ok", <<b>>))
       [] OTHER -> Quiet /\ Go(t, [c EXCEPT !.pc = c.o])
Cap1(t) ==
  /\ ct[t].pc = "cap"
  /\ Lp(t, "ok", <<cap>>) /\ Go(t, End(ct[t], "ok", <<cap>>))
  /\ UNCHANGED <<lenR, lenW, cap, alloc, slot>>

(********************************* elements *********************************)
\* compare_exchange SOME -> RESERVED; disabled (spinning) while reserved
CanLock(p) == slot[p].s # "res"
Lock(p) == slot' = [slot EXCEPT ![p].s = "res"]
Unlock(p) == slot' = [slot EXCEPT ![p].s = "some"]
Same5 == UNCHANGED <<lenR, lenW, cap, alloc>>
Access(t) ==                                          \* get(i): inside?
  LET c == ct[t] IN
  /\ c.pc \in {"getc", "rep", "upd", "add"}
  /\ IF c.a[1] < c.len
     THEN /\ CanLock(c.a[1]) \/ (Variant = "read-unlocked" /\ c.o = "getc")
          /\ IF Variant = "read-unlocked" /\ c.o = "getc" THEN UNCHANGED slot ELSE Lock(c.a[1])
          /\ IF slot[c.a[1]].s = "none" THEN bad' = "no value" /\ UNCHANGED avars ELSE Quiet
          /\ Go(t, [c EXCEPT !.pc = "crit", !.q1 = c.a[1]])
     ELSE Lp(t, "none", <<>>) /\ UNCHANGED slot /\ Go(t, End(c, "none", <<>>))
  /\ Same5
GetRaw1(t) ==                                         \* get_cloned, get_raw: len_reserved and capacity first
  LET c == ct[t] IN
  /\ c.pc = "rlen"
  /\ Go(t, [c EXCEPT !.pc = "rlen2", !.len = lenR]) /\ Quiet /\ UNCHANGED slot /\ Same5
GetRaw2(t) ==
  LET c == ct[t] m == IF Variant = "raw-beyond" THEN c.len ELSE Min2(c.len, cap) IN
  /\ c.pc = "rlen2"
  /\ IF c.a[1] < m THEN Quiet /\ Go(t, [c EXCEPT !.pc = "relem"]) ELSE Lp(t, "none", <<>>) /\ Go(t, End(c, "none", <<>>))
  /\ UNCHANGED slot /\ Same5
GetRaw3(t) ==
  LET c == ct[t] p == c.a[1] IN
  /\ c.pc = "relem"
  /\ Same5
  /\ IF ~Touch(p) THEN bad' = "outside storage" /\ UNCHANGED avars /\ UNCHANGED slot /\ Go(t, End(c, "none", <<>>))
     ELSE IF c.o = "raw" \/ slot[p].s = "none"
     THEN /\ UNCHANGED slot
          /\ IF slot[p].s = "none" \/ (Variant = "raw-some-only" /\ slot[p].s # "some")
             THEN Lp(t, "none", <<>>) /\ Go(t, End(c, "none", <<>>))
             ELSE Lp(t, "some", <<>>) /\ Go(t, End(c, "some", <<>>))
     ELSE CanLock(p) /\ Lock(p) /\ Quiet /\ Go(t, [c EXCEPT !.pc = "crit", !.q1 = p])
Crit(t) ==                                            \* with the element reserved
  LET c == ct[t] p == c.q1 old == slot[p].v
      fire == c.p >= 0
  IN
  /\ c.pc = "crit"
  /\ Same5
  /\ CASE c.o \in {"getc", "gcl"} ->
            /\ IF fire THEN Lp(t, "panic", <<>>) /\ Go(t, [End(c, "panic", <<>>) EXCEPT !.pc = "unlock"])
               ELSE Lp(t, "some", <<old>>) /\ Go(t, [End(c, "some", <<old>>) EXCEPT !.pc = IF Variant = "read-unlocked" /\ c.o = "getc" THEN "ret" ELSE "unlock"])
            /\ UNCHANGED slot
       [] c.o = "rep" -> LpTo(t, "some", <<old>>, Put(cells, p, c.a[2])) /\ slot' = [slot EXCEPT ![p].v = c.a[2]] /\ Go(t, [End(c, "some", <<old>>) EXCEPT !.pc = "unlock"])
       [] OTHER ->                                    \* update: the closure works on the value in place
            IF fire THEN /\ Lp(t, "panic", <<>>) /\ UNCHANGED slot
                         /\ Go(t, [End(c, "panic", <<>>) EXCEPT !.pc = IF Variant = "panic-keeps-lock" THEN "ret" ELSE "unlock"])
            ELSE Quiet /\ slot' = [slot EXCEPT ![p].v = Torn] /\ Go(t, [c EXCEPT !.pc = "crit2", !.x = old])
Crit2(t) ==
  LET c == ct[t] p == c.q1 new == IF c.o = "add" THEN c.x + c.a[2] ELSE c.a[2] IN
  /\ c.pc = "crit2"
  /\ Same5
  /\ slot' = [slot EXCEPT ![p].v = new]
  /\ LpTo(t, "some", <<c.x>>, Put(cells, p, new)) /\ Go(t, [End(c, "some", <<c.x>>) EXCEPT !.pc = "unlock"])
UnlockOne(t) ==
  LET c == ct[t] IN
  /\ c.pc = "unlock"
  /\ Same5 /\ Quiet /\ Unlock(c.q1) /\ Go(t, [c EXCEPT !.pc = "ret"])

(*********************************** swap ***********************************)
Swap0(t) ==                                           \* get(i), get(j); addresses decide who is reserved first
  LET c == ct[t] i == c.a[1] j == c.a[2] IN
  /\ c.pc = "swap"
  /\ UNCHANGED slot /\ Same5
  /\ IF i >= c.len \/ j >= c.len THEN Lp(t, "ok", <<0>>) /\ Go(t, End(c, "ok", <<0>>))
     ELSE IF i = j /\ Variant # "swap-twice" THEN Lp(t, "ok", <<1>>) /\ Go(t, End(c, "ok", <<1>>))
     ELSE Quiet /\ Go(t, [c EXCEPT !.pc = "lock1", !.q1 = IF Variant = "swap-unordered" THEN i ELSE Min2(i, j), !.q2 = IF Variant = "swap-unordered" THEN j ELSE Max2(i, j)])
Lock1(t) == LET c == ct[t] IN c.pc = "lock1" /\ CanLock(c.q1) /\ Lock(c.q1) /\ Quiet /\ Same5 /\ Go(t, [c EXCEPT !.pc = "lock2"])
Lock2(t) ==
  LET c == ct[t] IN
  /\ c.pc = "lock2" /\ CanLock(c.q2) /\ Same5
  /\ IF c.o = "swap"
     THEN /\ LpTo(t, "ok", <<1>>, Put(Put(cells, c.q1, slot[c.q2].v), c.q2, slot[c.q1].v))
          /\ slot' = [slot EXCEPT ![c.q1].v = slot[c.q2].v, ![c.q2] = [s |-> "res", v |-> slot[c.q1].v]]
          /\ Go(t, [End(c, "ok", <<1>>) EXCEPT !.pc = "unlock2"])
     ELSE Lock(c.q2) /\ Quiet /\ Go(t, [c EXCEPT !.pc = "cmp"])
Unlock2(t) == LET c == ct[t] IN c.pc = "unlock2" /\ Same5 /\ Quiet /\ Unlock(c.q2) /\ Go(t, [c EXCEPT !.pc = "unlock"])
\* == of two elements: one is read out, then compared under the reservation of the other
Eq0(t) ==
  LET c == ct[t] i == c.a[1] j == c.a[2] IN
  /\ c.pc = "eqe" /\ Same5
  /\ IF i >= c.len \/ j >= c.len THEN Lp(t, "none", <<>>) /\ UNCHANGED slot /\ Go(t, End(c, "none", <<>>))
     ELSE IF Variant = "eq-nested" THEN Quiet /\ UNCHANGED slot /\ Go(t, [c EXCEPT !.pc = "lock1", !.q1 = i, !.q2 = j])
     ELSE IF i = j THEN Quiet /\ CanLock(i) /\ Lock(i) /\ Go(t, [c EXCEPT !.pc = "cmp", !.q1 = i, !.q2 = i])
     ELSE Quiet /\ UNCHANGED slot /\ Go(t, [c EXCEPT !.pc = "lock1", !.q1 = Min2(i, j), !.q2 = Max2(i, j)])
Cmp(t) ==                                             \* both reads happen while both are reserved: two steps of AbsVec
  LET c == ct[t] b == IF slot[c.q1].v = slot[c.q2].v THEN 1 ELSE 0 IN
  /\ c.pc = "cmp" /\ Same5 /\ UNCHANGED slot
  /\ IF th[t].pc = "start" THEN Part1(t, "some", <<b>>) /\ Go(t, c)
     ELSE Lp(t, "some", <<b>>) /\ Go(t, [End(c, "some", <<b>>) EXCEPT !.pc = IF c.q1 = c.q2 THEN "unlock" ELSE "unlock2"])

(********************************* iteration ********************************)
Walk(t) ==                                            \* itc, fill, idxof: elements 0..len-1, each reserved for its turn
  LET c == ct[t]
      end == CASE c.o = "itc" -> <<"ok", c.out>> [] c.o = "fill" -> <<"ok", <<>>>> [] OTHER -> <<"none", <<>>>>
      n == IF Variant = "iter-no-bound" THEN lenR ELSE c.len
  IN
  /\ c.pc \in {"itc", "fill", "idxof"} /\ Same5
  /\ IF c.k >= n THEN Lp(t, end[1], end[2]) /\ UNCHANGED slot /\ Go(t, End(c, end[1], end[2]))
     ELSE IF ~Touch(c.k) \/ slot[c.k].s = "none" THEN bad' = "no value" /\ UNCHANGED avars /\ UNCHANGED slot /\ Go(t, End(c, "panic", <<>>))
     ELSE CanLock(c.k) /\ Lock(c.k) /\ Quiet /\ Go(t, [c EXCEPT !.pc = "walk"])
WalkCrit(t) ==
  LET c == ct[t] v == slot[c.k].v next == [c EXCEPT !.pc = c.o, !.k = @ + 1] IN
  /\ c.pc = "walk" /\ Same5
  /\ CASE c.o = "itc" -> /\ Part1(t, "ok", Append(c.out, v)) /\ slot' = slot
                         /\ Go(t, [c EXCEPT !.pc = "walk2", !.out = Append(@, v)])
       [] c.o = "fill" -> /\ LpX(t, "ok", <<>>, Put(cells, c.k, c.a[1]), FALSE) /\ slot' = [slot EXCEPT ![c.k].v = c.a[1]]
                          /\ Go(t, [c EXCEPT !.pc = "walk2"])
       [] OTHER -> /\ slot' = slot
                   /\ IF v = c.a[1] THEN Lp(t, "some", <<c.k>>) /\ Go(t, [End(c, "some", <<c.k>>) EXCEPT !.pc = "unlock", !.q1 = c.k])
                      ELSE Part1(t, "more", <<>>) /\ Go(t, [c EXCEPT !.pc = "walk2"])
Walk2(t) ==
  LET c == ct[t] IN
  /\ c.pc = "walk2" /\ Same5 /\ Quiet /\ Unlock(c.k)
  /\ Go(t, [c EXCEPT !.pc = c.o, !.k = @ + 1])

(************************************ spec **********************************)
Act(t) ==
  \/ Begin(t) \/ Return(t)
  \/ Reserve1(t) \/ Permit(t) \/ Grow1(t) \/ Grow2(t) \/ Closure(t) \/ Write(t) \/ Publish1(t)
  \/ Len1(t) \/ Len2(t) \/ Len3(t) \/ Len4(t) \/ Len5(t) \/ Cap1(t)
  \/ Access(t) \/ GetRaw1(t) \/ GetRaw2(t) \/ GetRaw3(t) \/ Crit(t) \/ Crit2(t) \/ UnlockOne(t)
  \/ Swap0(t) \/ Lock1(t) \/ Lock2(t) \/ Unlock2(t) \/ Eq0(t) \/ Cmp(t)
  \/ Walk(t) \/ WalkCrit(t) \/ Walk2(t)
Finished == \A t \in Clients : ct[t].pc = "idle" /\ ct[t].made = Calls
Next == (bad = "" /\ \E t \in Clients : Act(t)) \/ ((Finished \/ bad # "") /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

(********************************* invariants *******************************)
Refines == bad = ""
\* the abstraction: what AbsVec calls published is what the slots hold
Mapping ==
  /\ rsv = lenR
  /\ \A p \in Slots : p < alloc => (slot[p].s # "none") = Published(p)
  /\ \A p \in Slots : slot[p].s = "some" => slot[p].v = At(p)
  /\ \A p \in Slots : p >= alloc => slot[p].s = "none"
LenWritten == lenW <= cp
Growth ==
  /\ cap <= alloc /\ cap \in CapSteps
  /\ \A t, u \in Clients : ct[t].pc \in {"grow", "grow2"} /\ ct[u].pc \in {"grow", "grow2"} => t = u
Holds(t) == CASE ct[t].pc \in {"crit", "crit2", "unlock", "lock2"} -> {ct[t].q1}
              [] ct[t].pc \in {"unlock2", "cmp"} -> {ct[t].q1, ct[t].q2}
              [] ct[t].pc \in {"walk", "walk2"} -> {ct[t].k}
              [] OTHER -> {}
Exclusive ==
  /\ \A t, u \in Clients : t # u => Holds(t) \cap Holds(u) = {}
  /\ \A p \in Slots : (slot[p].s = "res") = (\E t \in Clients : p \in Holds(t))
Sym == Permutations(Clients)
=============================================================================
