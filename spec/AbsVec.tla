------------------------------- MODULE AbsVec -------------------------------
(***************************************************************************)
(* What a user of ConcurrentVec may observe.                                *)
(*                                                                         *)
(* The abstract state is the sequence of published values together with    *)
(* the number of handed-out positions; every call is three kinds of steps: *)
(*     Call   - records what was guaranteed when the call began            *)
(*     Step   - the internal, atomic effects of the call (the linearization*)
(*              points); several for calls that are not atomic as a whole  *)
(*              (batches, iteration, fill, comparisons)                    *)
(*     Ret    - the result becomes visible                                 *)
(* The actions are the union of all public methods of the vector, its      *)
(* slices and its elements; the module is used                             *)
(*  - by MCAbs.tla, which model-checks the listed properties on it,        *)
(*  - by Trace.tla, which accepts or rejects histories recorded from the   *)
(*    real code,                                                           *)
(*  - by MCSeq.tla, which generates programs with predicted results,       *)
(*  - by Impl.tla, whose atomic-step algorithm refines it.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS
  Threads,      \* thread ids, 0 is the one that owns the vector exclusively
  Batch         \* TRUE: a call that runs alone does all of a loop in one step

VARIABLES
  cells,        \* published values; 0 = handed out but not (yet) written.  Len(cells) is 0 or cells[Len] # 0
  cp,           \* length of the contiguous published prefix
  rsv,          \* number of positions handed out
  maxc,         \* maximum capacity
  capL,         \* largest capacity reported so far
  reg,          \* registers of the client: slice windows, element handles, open iterators, kept references
  th            \* pending call of each thread

avars == <<cells, cp, rsv, maxc, capL, reg, th>>

Nil == [st |-> "idle"]
NoReg == [win |-> <<>>, hnd |-> <<>>, its |-> <<>>, chk |-> <<>>, refs |-> <<>>]
Inf == 2000000000

Init0(m) ==
  /\ cells = <<>> /\ cp = 0 /\ rsv = 0 /\ maxc = m /\ capL = 0
  /\ reg = NoReg
  /\ th = [t \in Threads |-> Nil]

(************************************ helpers *******************************)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Ix(i) == IF i < 0 THEN Inf ELSE i                 \* -1 stands for usize::MAX
Range0(s) == {s[i] : i \in 1..Len(s)}
NaN == 777777                                     \* a value that is not equal to itself
Same(x, y) == x = y /\ x # NaN
Zeros(n) == [i \in 1..n |-> 0]
Put(c, pos, v) == IF pos < Len(c) THEN [c EXCEPT ![pos + 1] = v] ELSE c \o Zeros(pos - Len(c)) \o <<v>>
PutAll(c, pos, vs) ==
  IF vs = <<>> THEN c
  ELSE IF pos >= Len(c) THEN c \o Zeros(pos - Len(c)) \o vs
  ELSE LET n == Max2(Len(c), pos + Len(vs)) IN
       [i \in 1..n |-> IF i > pos /\ i <= pos + Len(vs) THEN vs[i - pos] ELSE c[i]]
\* end of the written prefix, known to reach n (the first unwritten position, found in linear time)
Contig(c, n) ==
  IF \E i \in n + 1..Len(c) : c[i] = 0
  THEN (CHOOSE i \in n + 1..Len(c) : c[i] = 0 /\ \A j \in n + 1..i - 1 : c[j] # 0) - 1
  ELSE Max2(n, Len(c))
At(pos) == cells[pos + 1]
Published(pos) == pos < Len(cells) /\ cells[pos + 1] # 0
IsSlice(s) == s # 0
Base(s) == IF s = 0 THEN 0 ELSE reg.win[s][1]
WLen(s) == reg.win[s][2]
Vals(c) == SelectSeq(c, LAMBDA x : x # 0)
Sorted(c) == SortSeq(Vals(c), <)
CeilDiv(a, b) == (a + b - 1) \div b
SetReg(f, k, v) == (k :> v) @@ f

\* is relative index i (for window s, lower bound lo) possibly / possibly not in bounds right now?
MayIn(s, lo, i)  == IF IsSlice(s) THEN i < WLen(s) ELSE i < cp
MayOut(s, lo, i) == IF IsSlice(s) THEN i >= WLen(s) ELSE i >= lo
\* lengths that may be observed right now
LenLo(s, lo) == IF IsSlice(s) THEN WLen(s) ELSE lo
LenHi(s) == IF IsSlice(s) THEN WLen(s) ELSE cp

Alone(t) == \A u \in Threads \ {t} : th[u].st = "idle"

(***************************** recorded results *****************************)
\* A hint is the result recorded in a history; AnyHint leaves it open.
AnyHint == [k |-> "any", r |-> <<>>]
Fin(h, k, out) == h.k = "any" \/ (h.k = k /\ h.r = out)
Part(h, out) == h.k = "any" \/ (Len(out) <= Len(h.r) /\ out = SubSeq(h.r, 1, Len(out)))
\* candidates for a number known only to lie in lo..hi; i = its index in the result
Cand(h, lo, hi, i, f(_)) ==
  IF h.k = "any" THEN lo..Min2(hi, lo + 3)
  ELSE {n \in lo..hi : i <= Len(h.r) /\ h.r[i] = f(n)}
CandBig(h, lo, hi, i) ==                       \* same for the identity, without enumerating lo..hi
  IF h.k = "any" THEN {lo, hi} ELSE IF i <= Len(h.r) /\ h.r[i] >= lo /\ h.r[i] <= hi THEN {h.r[i]} ELSE {}

Done(t, h, k, out) ==
  /\ Fin(h, k, out)
  /\ th' = [th EXCEPT ![t] = [st |-> "done", k |-> k, r |-> out, c |-> th[t].c]]
Cont(t, h, f) ==                               \* f: updated call record
  /\ Part(h, f.out)
  /\ th' = [th EXCEPT ![t] = f]
\* the user callback of this call panicked (recorded as p >= 0): the call panics, wherever it was
Fired(t) == th[t].p >= 0
PanicNow(t, h) == Fired(t) /\ Done(t, h, "panic", <<>>)
\* a traversal runs the callback once for each element of what it covers, never for others: callback number p (from 0)
\* can only panic when there are more than p of them
EachOps == {"itc", "itm", "itcl", "map", "fold", "ita"}
PanicIn(t, h) == (th[t].o \in EachOps => th[t].p < LenHi(th[t].s)) /\ PanicNow(t, h)

SetCells(c) == cells' = c /\ cp' = Contig(c, cp)
SameVec == UNCHANGED <<cells, cp, rsv, maxc, capL>>
SameStore == UNCHANGED <<rsv, maxc, capL, reg>>

(*********************************** growth *********************************)
GrowOps == {"push", "pushf", "pushw", "ext", "extv", "extw", "extf", "extfl", "extlie", "extn", "exti", "extni", "extfi"}
\* number of positions asked for, values provided
GrowN(c) == CASE c.o \in {"push", "pushf", "pushw"} -> 1
              [] c.o \in {"ext", "extv", "extf", "exti", "extfi"} -> Len(c.a)
              [] c.o = "extw" -> Len(c.a) - 1
              [] OTHER -> Ix(c.a[1])
AddR(x, n) == IF n >= Inf - x THEN Inf ELSE x + n
GrowVals(c) == CASE c.o \in {"push", "pushf", "pushw"} -> <<c.a[1]>>
                 [] c.o \in {"ext", "extv", "extf", "exti", "extfi"} -> c.a
                 [] OTHER -> Tail(c.a)
GrowOut(c) == IF c.o \in {"pushf", "pushw", "extf", "extfi"} THEN <<c.idx, c.idx>> ELSE <<c.idx>>
Reserve(t, h) ==
  LET c == th[t]
      n == GrowN(c)
      f == [c EXCEPT !.idx = rsv, !.pc = "pub"]
  IN /\ c.pc = "start" /\ c.o \in GrowOps
     /\ UNCHANGED <<cells, cp, maxc, capL, reg>>
     /\ \/ \* the caller's into_iter (its first callback) may come before the reservation
           c.o \in {"exti", "extni"} /\ c.p = 0 /\ PanicNow(t, h) /\ UNCHANGED rsv
        \/ \* a batch that can never fit may be rejected before it reserves anything
           rsv' \in {AddR(rsv, n)} \cup (IF n > maxc THEN {rsv} ELSE {})
           /\ IF n > 0 /\ n > maxc - rsv
              THEN Done(t, h, "panic", <<>>)               \* the positions stay unused
              ELSE /\ h.k \in {"any", "panic"} \/ h.r = GrowOut(f)
                   /\ th' = [th EXCEPT ![t] = f]
Publish(t, h) ==
  LET c == th[t]
      n == GrowN(c)
      vs == GrowVals(c)
      m == Min2(n, Len(vs))                                \* how many values can be written
      wrongLen == c.o = "extfl" /\ n # Len(vs)
  IN /\ c.pc = "pub" /\ c.o \in GrowOps
     /\ SameStore
     /\ \/ wrongLen /\ Done(t, h, "panic", <<>>) /\ UNCHANGED <<cells, cp>>
        \/ PanicNow(t, h) /\ UNCHANGED <<cells, cp>>
        \/ ~wrongLen /\ c.k = m /\ UNCHANGED <<cells, cp>>
           /\ IF m < n THEN Done(t, h, "panic", <<>>)      \* iterator was shorter than announced
              ELSE ~Fired(t) /\ Done(t, h, "ok", GrowOut(c))
        \/ /\ ~wrongLen /\ c.k < m
           /\ \E j \in IF Batch /\ Alone(t) THEN (IF Fired(t) THEN c.k + 1..m ELSE {m}) ELSE {c.k + 1} :
                /\ SetCells(PutAll(cells, c.idx + c.k, SubSeq(vs, c.k + 1, j)))
                /\ IF j = m /\ m = n /\ ~Fired(t)
                   THEN Done(t, h, "ok", GrowOut(c))       \* the last publication is the last effect
                   ELSE th' = [th EXCEPT ![t].k = j]
\* push_for_idx whose closure pushes another value
PushR(t, h) ==
  LET c == th[t] IN
  /\ c.o = "pushr"
  /\ UNCHANGED <<maxc, capL, reg>>
  /\ \/ /\ c.pc = "start" /\ rsv' = rsv + 1 /\ UNCHANGED <<cells, cp>>
        /\ IF rsv + 1 > maxc THEN Done(t, h, "panic", <<>>)
           ELSE th' = [th EXCEPT ![t].idx = rsv, ![t].pc = "in"]
     \/ /\ c.pc = "in" /\ rsv' = rsv + 1 /\ UNCHANGED <<cells, cp>>
        /\ IF rsv + 1 > maxc THEN Done(t, h, "panic", <<>>)
           ELSE th' = [th EXCEPT ![t].k = rsv, ![t].pc = "in2"]
     \/ /\ c.pc = "in2" /\ UNCHANGED rsv
        /\ SetCells(Put(cells, c.k, c.a[2]))
        /\ th' = [th EXCEPT ![t].pc = "out"]
     \/ /\ c.pc = "out" /\ UNCHANGED rsv
        /\ SetCells(Put(cells, c.idx, c.a[1]))
        /\ Done(t, h, "ok", <<c.idx, c.idx, c.k>>)

(******************************** length, capacity **************************)
Measure(t, h) ==
  LET c == th[t] IN
  /\ c.o \in {"len", "isempty", "cap", "maxcap"}
  /\ UNCHANGED <<cells, cp, rsv, maxc, reg>>
  /\ CASE c.o = "len" -> UNCHANGED capL /\ \E n \in CandBig(h, LenLo(c.s, c.lo), LenHi(c.s), 1) : Done(t, h, "ok", <<n>>)
       [] c.o = "isempty" -> /\ UNCHANGED capL
                             /\ \/ LenLo(c.s, c.lo) = 0 /\ Done(t, h, "ok", <<1>>)
                                \/ LenHi(c.s) > 0 /\ Done(t, h, "ok", <<0>>)
       [] c.o = "cap" -> \E n \in CandBig(h, c.clo, maxc, 1) :
                              Done(t, h, "ok", <<n>>) /\ capL' = Max2(capL, n)
       [] OTHER -> UNCHANGED capL /\ Done(t, h, "ok", <<maxc>>)

(****************************** single elements *****************************)
\* reads through the element found by get: bounded by the contiguous prefix
ElemReads == {"get", "getc", "getcp", "getm", "mapw", "idx", "dbge", "eqt"}
ElemWrites == {"rep", "set", "upd", "updw", "add", "upda", "updd"}
DropOps == {"set", "updd"}                      \* the displaced value is dropped during the call
RawReads == {"gcl", "gcp", "raw", "rawm", "mutg", "rawv", "ref"}
RawWrites == {"rawmset", "mutset"}
Elem(t, h) ==
  LET c == th[t]
      i == Ix(c.a[1])
      pos == Base(c.s) + i
      raw == c.o \in RawReads \cup RawWrites
      may == IF raw /\ ~IsSlice(c.s) THEN Published(pos) ELSE MayIn(c.s, c.lo, i)
      old == At(pos)
  IN /\ c.o \in ElemReads \cup ElemWrites \cup RawReads \cup RawWrites
     /\ UNCHANGED <<rsv, maxc, capL>>
     /\ \/ /\ MayOut(c.s, c.lo, i)
           /\ UNCHANGED <<cells, cp, reg>>
           /\ IF c.o = "idx" THEN Done(t, h, "panic", <<>>) ELSE ~Fired(t) /\ Done(t, h, "none", <<>>)
        \/ c.o \notin DropOps /\ PanicNow(t, h) /\ UNCHANGED <<cells, cp, reg>>
        \* the old value panicked while it was dropped: it is gone, the new one is there
        \/ c.o \in DropOps /\ may /\ PanicNow(t, h) /\ SetCells(Put(cells, pos, c.a[2])) /\ UNCHANGED reg
        \/ /\ may /\ ~Fired(t)
           /\ reg' = IF c.o = "ref" /\ c.s = 0 THEN [reg EXCEPT !.refs = Append(@, <<t, i>>)] ELSE reg
           /\ CASE c.o \in {"get", "raw", "rawm", "mutg"} -> Done(t, h, "some", <<>>) /\ UNCHANGED <<cells, cp>>
                [] c.o \in {"getc", "getcp", "getm", "mapw", "idx", "dbge", "gcl", "gcp", "rawv", "ref"} ->
                     Done(t, h, "some", <<old>>) /\ UNCHANGED <<cells, cp>>
                [] c.o = "eqt" -> Done(t, h, "some", <<IF Same(old, c.a[2]) THEN 1 ELSE 0>>) /\ UNCHANGED <<cells, cp>>
                [] c.o \in DropOps -> Done(t, h, "some", <<>>) /\ SetCells(Put(cells, pos, c.a[2]))
                [] c.o \in {"rep", "upd", "updw", "rawmset", "mutset"} ->
                     Done(t, h, "some", <<old>>) /\ SetCells(Put(cells, pos, c.a[2]))
                [] c.o = "add" -> Done(t, h, "some", <<old>>) /\ SetCells(Put(cells, pos, old + c.a[2]))
                [] OTHER -> Done(t, h, "panic", <<>>) /\ SetCells(Put(cells, pos, c.a[2]))    \* upda
\* elements obtained earlier and kept
Hold(t, h) ==
  LET c == th[t] i == Ix(c.a[1]) IN
  /\ c.o = "hold"
  /\ SameVec
  /\ \/ MayOut(c.s, c.lo, i) /\ Done(t, h, "none", <<>>)
        /\ reg' = [reg EXCEPT !.hnd = SetReg(@, c.a[2], <<>>)]
     \/ MayIn(c.s, c.lo, i) /\ Done(t, h, "some", <<>>)
        /\ reg' = [reg EXCEPT !.hnd = SetReg(@, c.a[2], <<i, Base(c.s) + i>>)]
Held(t, h) ==
  LET c == th[t]
      has == c.a[1] \in DOMAIN reg.hnd /\ reg.hnd[c.a[1]] # <<>>
      q == reg.hnd[c.a[1]]
  IN /\ c.o \in {"hc", "hm", "hr", "hu"}
     /\ SameStore
     /\ IF ~has THEN Done(t, h, "skip", <<>>) /\ UNCHANGED <<cells, cp>>
        ELSE \/ PanicNow(t, h) /\ UNCHANGED <<cells, cp>>
             \/ /\ ~Fired(t)
                /\ Done(t, h, "some", <<q[1], At(q[2])>>)
                /\ IF c.o \in {"hr", "hu"} THEN SetCells(Put(cells, q[2], c.a[2])) ELSE UNCHANGED <<cells, cp>>

(***************************** several elements *****************************)
Swap(t, h) ==
  LET c == th[t]
      i == Ix(c.a[1]) j == Ix(c.a[2]) b == Base(c.s)
  IN /\ c.o = "swap"
     /\ SameStore
     /\ \/ /\ MayOut(c.s, c.lo, i) \/ MayOut(c.s, c.lo, j)
           /\ Done(t, h, "ok", <<0>>) /\ UNCHANGED <<cells, cp>>
        \/ /\ MayIn(c.s, c.lo, i) /\ MayIn(c.s, c.lo, j)
           /\ Done(t, h, "ok", <<1>>)
           /\ cells' = [cells EXCEPT ![b + i + 1] = cells[b + j + 1], ![b + j + 1] = cells[b + i + 1]]
           /\ UNCHANGED cp
Fill(t, h) ==
  LET c == th[t]
      b == Base(c.s)
      same == c.o \in {"fill", "filld"}
      v(k) == IF same THEN c.a[1] ELSE c.a[1] + k
  IN /\ c.o \in {"fill", "fillw", "filld", "fillwd"}
     /\ SameStore
        \* the value number p that is dropped panics: it has been replaced before
     /\ \/ (c.o \in {"filld", "fillwd"} => c.k > c.p \/ MayOut(c.s, c.lo, c.k)) /\ PanicNow(t, h) /\ UNCHANGED <<cells, cp>>
        \/ ~Fired(t) /\ MayOut(c.s, c.lo, c.k) /\ Done(t, h, "ok", c.out) /\ UNCHANGED <<cells, cp>>
        \/ /\ MayIn(c.s, c.lo, c.k)
           /\ \E j \in IF Batch /\ Alone(t) /\ ~Fired(t) THEN Max2(c.k + 1, LenLo(c.s, c.lo))..LenHi(c.s) ELSE {c.k + 1} :
                /\ cells' = PutAll(cells, b + c.k, [x \in 1..j - c.k |-> v(c.k + x - 1)])
                /\ UNCHANGED cp
                /\ Cont(t, IF Fired(t) THEN AnyHint ELSE h,
                        [c EXCEPT !.k = j, !.out = IF same THEN @ ELSE @ \o [x \in 1..j - c.k |-> c.k + x - 1]])

(********************************** iteration *******************************)
IterOps == {"itc", "itm", "itcl", "map", "fold", "cvec", "clonev", "dbg"}
Iter(t, h) ==
  LET c == th[t] b == Base(c.s) IN
  /\ c.o \in IterOps
  /\ SameVec /\ UNCHANGED reg
  /\ \/ PanicIn(t, h)
     \/ ~Fired(t) /\ MayOut(c.s, c.lo, c.k) /\ Done(t, h, "ok", c.out)
     \/ /\ ~Fired(t) /\ MayIn(c.s, c.lo, c.k)
        /\ IF Batch /\ Alone(t)
           THEN LET j == IF h.k = "any" THEN LenHi(c.s) ELSE Min2(LenHi(c.s), Len(h.r))
                IN j > c.k /\ Cont(t, h, [c EXCEPT !.k = j, !.out = @ \o SubSeq(cells, b + c.k + 1, b + j)])
           ELSE Cont(t, h, [c EXCEPT !.k = @ + 1, !.out = Append(@, At(b + c.k))])
\* an iterator consumed by an adaptor: 0 take(n), 1 skip(n), 2 step_by(n), 3 nth(n) and the rest, 4 last, 5 count, others all
Sel(kind, n, k) == CASE kind \in {1, 3} -> k >= n [] kind = 2 -> k % n = 0 [] kind \in {4, 5} -> FALSE [] OTHER -> TRUE
Adapted(kind, n, vs) ==
  CASE kind = 0 -> SubSeq(vs, 1, Min2(n, Len(vs)))
    [] kind \in {1, 3} -> SubSeq(vs, n + 1, Len(vs))
    [] kind = 2 -> [i \in 1..(IF vs = <<>> THEN 0 ELSE CeilDiv(Len(vs), n)) |-> vs[(i - 1) * n + 1]]
    [] kind = 4 -> IF vs = <<>> THEN <<>> ELSE <<Last(vs)>>
    [] kind = 5 -> <<Len(vs)>>
    [] OTHER -> vs
IterAdapt(t, h) ==
  LET c == th[t] b == Base(c.s) kind == c.a[2] n == Ix(c.a[3])
      end(v) == CASE kind = 4 -> (IF c.k = 0 THEN <<>> ELSE <<v>>) [] kind = 5 -> <<c.k>> [] OTHER -> c.out
  IN
  /\ c.o = "ita"
  /\ SameVec /\ UNCHANGED reg
  /\ \/ PanicIn(t, h)
     \/ ~Fired(t) /\ (MayOut(c.s, c.lo, c.k) \/ (kind = 0 /\ c.k >= n))
        \* the last element is read when it is passed or at the end
        /\ \E v \in {c.x} \cup (IF kind = 4 /\ c.k > 0 THEN {At(b + c.k - 1)} ELSE {}) : Done(t, h, "ok", end(v))
     \/ /\ ~Fired(t) /\ MayIn(c.s, c.lo, c.k) /\ (kind = 0 => c.k < n)
        /\ Cont(t, IF kind \in {4, 5} THEN AnyHint ELSE h, [c EXCEPT !.k = @ + 1, !.x = At(b + c.k), !.out = IF Sel(kind, n, c.k) THEN Append(@, At(b + c.k)) ELSE @])
\* filter: the predicate (even) sees each value; the element is read again when it was selected
Filter(t, h) ==
  LET c == th[t] x == At(Base(c.s) + c.k) IN
  /\ c.o = "filt"
  /\ SameVec /\ UNCHANGED reg
  /\ \/ PanicNow(t, h)
     \/ ~Fired(t) /\ c.pc = "start" /\ MayOut(c.s, c.lo, c.k) /\ Done(t, h, "ok", c.out)
     \/ /\ ~Fired(t) /\ c.pc = "start" /\ MayIn(c.s, c.lo, c.k)
        /\ Cont(t, h, [c EXCEPT !.k = IF x % 2 = 0 THEN @ ELSE @ + 1, !.pc = IF x % 2 = 0 THEN "sel" ELSE "start", !.out = Append(@, x)])
     \/ /\ ~Fired(t) /\ c.pc = "sel"
        /\ Cont(t, h, [c EXCEPT !.k = @ + 1, !.pc = "start", !.out = Append(@, x)])
Reduce(t, h) ==
  LET c == th[t] IN
  /\ c.o = "red"
  /\ SameVec /\ UNCHANGED reg
  /\ \/ PanicNow(t, h)
     \/ ~Fired(t) /\ MayOut(c.s, c.lo, c.k) /\ Done(t, h, IF c.k = 0 THEN "none" ELSE "some", c.out)
     \/ ~Fired(t) /\ MayIn(c.s, c.lo, c.k) /\ Cont(t, h, [c EXCEPT !.k = @ + 1, !.out = Append(@, At(Base(c.s) + c.k))])
\* an iterator that is kept open and asked for one value at a time: first position, length or -1 (the vector), next index,
\* lower bound of its end.  itopen: iter, icopen: iter_cloned, imopen: map
ItOpen(t, h) ==
  LET c == th[t] IN
  /\ c.o \in {"itopen", "icopen", "imopen"}
  /\ SameVec
  /\ Done(t, h, "ok", <<>>)
  /\ reg' = [reg EXCEPT !.its = SetReg(@, c.a[1], [b |-> Base(c.s), n |-> IF IsSlice(c.s) THEN WLen(c.s) ELSE -1, k |-> 0, lo |-> c.lo])]
ItNext(t, h) ==
  LET c == th[t]
      has == c.a[1] \in DOMAIN reg.its
      q == reg.its[c.a[1]]
      more == q.k < (IF q.n >= 0 THEN q.n ELSE cp)
      step == reg' = [reg EXCEPT !.its = SetReg(@, c.a[1], [q EXCEPT !.k = @ + 1])]
  IN
  /\ c.o = "itnext"
  /\ SameVec
  /\ IF ~has THEN Done(t, h, "skip", <<>>) /\ UNCHANGED reg
     ELSE \/ ~Fired(t) /\ q.k >= (IF q.n >= 0 THEN q.n ELSE q.lo) /\ Done(t, h, "none", <<>>) /\ UNCHANGED reg
          \/ ~Fired(t) /\ more /\ Done(t, h, "some", <<At(q.b + q.k)>>) /\ step
          \/ PanicNow(t, h) /\ more /\ (step \/ UNCHANGED reg)
\* iteration over references: everything in the prefix, possibly more, never unwritten
IterRef(t, h) ==
  LET c == th[t]
      b == Base(c.s)
      in == IF IsSlice(c.s) THEN c.k < WLen(c.s) ELSE Published(c.k)
      skip == ~IsSlice(c.s) /\ c.k >= c.lo /\ c.k < Len(cells)
      out == IF c.o = "itmutn" THEN <<c.x>> ELSE c.out
  IN /\ c.o \in {"itref", "itmut", "itmutn"}
     /\ SameStore
     /\ \/ MayOut(c.s, c.lo, c.k) /\ Done(t, h, "ok", out) /\ UNCHANGED <<cells, cp>>
        \/ skip /\ th' = [th EXCEPT ![t].k = @ + 1] /\ UNCHANGED <<cells, cp>>
        \/ /\ Batch /\ Alone(t) /\ c.o = "itref" /\ c.k < LenLo(c.s, c.lo)
           /\ UNCHANGED <<cells, cp>>
           /\ LET j == IF h.k = "any" THEN LenLo(c.s, c.lo) ELSE Min2(LenLo(c.s, c.lo), Len(h.r))
              IN j > c.k /\ Cont(t, h, [c EXCEPT !.k = j, !.out = @ \o SubSeq(cells, b + c.k + 1, b + j)])
        \/ /\ in
           /\ ~(Batch /\ Alone(t) /\ c.o = "itref" /\ c.k < LenLo(c.s, c.lo))
           /\ IF c.o = "itmutn" THEN th' = [th EXCEPT ![t].k = @ + 1, ![t].x = @ + 1]
              ELSE Cont(t, h, [c EXCEPT !.k = @ + 1, !.out = Append(@, At(b + c.k))])
           /\ IF c.o = "itmut" THEN SetCells(Put(cells, b + c.k, At(b + c.k) + c.a[1])) ELSE UNCHANGED <<cells, cp>>
ReRef(t, h) ==
  /\ th[t].o = "reref"
  /\ SameVec /\ UNCHANGED reg
  /\ LET mine == SelectSeq(reg.refs, LAMBDA q : q[1] \in {0, t})      \* references this thread may use
     IN Done(t, h, "ok", [i \in 1..2 * Len(mine) |->
            LET p == mine[(i + 1) \div 2][2] IN IF i % 2 = 1 THEN p ELSE At(p)])

(*************************** comparison and search **************************)
\* next index of a loop that passes all elements without T; a call that runs alone passes them in one step,
\* but not those which were not pushed yet when it started
Ahead(t, T(_)) ==
  LET c == th[t] hi == LenLo(c.s, c.lo) IN
  IF Batch /\ Alone(t) /\ c.k + 1 < hi
  THEN IF \E i \in c.k + 1..hi - 1 : T(i) THEN CHOOSE i \in c.k + 1..hi - 1 : T(i) /\ \A j \in c.k + 1..i - 1 : ~T(j) ELSE hi
  ELSE c.k + 1
Search(t, h) ==
  LET c == th[t] hit == Same(At(Base(c.s) + c.k), c.a[1]) IN
  /\ c.o \in {"idxof", "cont"}
  /\ SameVec /\ UNCHANGED reg
  /\ \/ PanicNow(t, h)
     \/ /\ ~Fired(t) /\ MayOut(c.s, c.lo, c.k)
        /\ IF c.o = "cont" THEN Done(t, h, "ok", <<0>>) ELSE Done(t, h, "none", <<>>)
     \/ /\ ~Fired(t) /\ MayIn(c.s, c.lo, c.k)
        /\ IF hit THEN (IF c.o = "cont" THEN Done(t, h, "ok", <<1>>) ELSE Done(t, h, "some", <<c.k>>))
           ELSE th' = [th EXCEPT ![t].k = Ahead(t, LAMBDA k : Same(At(Base(c.s) + k), c.a[1]))]
\* comparison with constant values
EqConst(t, h) ==
  LET c == th[t]
      vs == IF c.o = "eqv" THEN Tail(c.a) ELSE c.a
      k == c.k
  IN /\ c.o \in {"eqsl", "eqar", "eqv"}
     /\ SameVec /\ UNCHANGED reg
     /\ \/ PanicNow(t, h)
        \/ ~Fired(t) /\ MayOut(c.s, c.lo, k) /\ Done(t, h, "ok", <<IF k = Len(vs) THEN 1 ELSE 0>>)
        \/ /\ ~Fired(t) /\ MayIn(c.s, c.lo, k)
           /\ IF k < Len(vs) /\ Same(At(Base(c.s) + k), vs[k + 1])
              THEN th' = [th EXCEPT ![t].k = Ahead(t, LAMBDA q : q >= Len(vs) \/ ~Same(At(Base(c.s) + q), vs[q + 1]))]
              ELSE Done(t, h, "ok", <<0>>)
\* comparison of two windows of the vector: the two elements of a pair are read separately, in any order
EqReg(t, h) ==
  LET c == th[t]
      s2 == c.a[1]
      k == c.k
      p1 == Base(c.s) + k
      p2 == Base(s2) + k
      verdict(e) == IF e THEN th' = [th EXCEPT ![t].k = @ + 1, ![t].pc = "start"] ELSE Done(t, h, "ok", <<0>>)
  IN /\ c.o = "eqr"
     /\ SameVec /\ UNCHANGED reg
     /\ \/ PanicNow(t, h)
        \/ /\ ~Fired(t) /\ c.pc = "start" /\ MayOut(c.s, c.lo, k) /\ MayOut(s2, c.lo, k) /\ Done(t, h, "ok", <<1>>)
        \/ /\ ~Fired(t) /\ c.pc = "start" /\ MayOut(c.s, c.lo, k) /\ MayIn(s2, c.lo, k) /\ Done(t, h, "ok", <<0>>)
        \/ /\ ~Fired(t) /\ c.pc = "start" /\ MayIn(c.s, c.lo, k) /\ MayOut(s2, c.lo, k) /\ Done(t, h, "ok", <<0>>)
        \/ /\ ~Fired(t) /\ c.pc = "start" /\ MayIn(c.s, c.lo, k) /\ MayIn(s2, c.lo, k)
           /\ IF Batch /\ Alone(t) THEN verdict(Same(At(p1), At(p2)))
              ELSE th' = [th EXCEPT ![t].pc = "l", ![t].x = At(p1)] \/ th' = [th EXCEPT ![t].pc = "r", ![t].x = At(p2)]
        \/ ~Fired(t) /\ c.pc = "l" /\ verdict(Same(c.x, At(p2)))
        \/ ~Fired(t) /\ c.pc = "r" /\ verdict(Same(c.x, At(p1)))
EqElem(t, h) ==
  LET c == th[t]
      i == Ix(c.a[1]) j == Ix(c.a[2]) b == Base(c.s)
      verdict(e) == Done(t, h, "some", <<IF e THEN 1 ELSE 0>>)
  IN /\ c.o = "eqe"
     /\ SameVec /\ UNCHANGED reg
     /\ \/ PanicNow(t, h)
        \/ ~Fired(t) /\ c.pc = "start" /\ (MayOut(c.s, c.lo, i) \/ MayOut(c.s, c.lo, j)) /\ Done(t, h, "none", <<>>)
        \/ /\ ~Fired(t) /\ c.pc = "start" /\ MayIn(c.s, c.lo, i) /\ MayIn(c.s, c.lo, j)
           /\ th' = [th EXCEPT ![t].pc = "l", ![t].x = At(b + i)] \/ th' = [th EXCEPT ![t].pc = "r", ![t].x = At(b + j)]
        \/ ~Fired(t) /\ c.pc = "l" /\ verdict(Same(c.x, At(b + j)))
        \/ ~Fired(t) /\ c.pc = "r" /\ verdict(Same(c.x, At(b + i)))

(*********************************** slicing ********************************)
\* range of a window of length n: [first, length], clamped; forms a..b  a..=b  ..b  a..  ..  ..=b  a<..b  a<..
SubRange(form, a0, b0, n) ==
  LET a == CASE form \in {0, 1, 3} -> Min2(Ix(a0), n) [] form \in {6, 7} -> Min2(Ix(a0) + 1, n) [] OTHER -> 0
      e == CASE form \in {0, 2, 6} -> Min2(Ix(b0), n)
             [] form \in {1, 5} -> Min2(Ix(b0) + 1, n)
             [] OTHER -> n
  IN IF e > a THEN <<a, e - a>> ELSE <<0, 0>>
Win(s, w) == IF w[2] = 0 THEN <<0, 0>> ELSE <<Base(s) + w[1], w[2]>>
SetWin(k, w) == reg' = [reg EXCEPT !.win = SetReg(@, k, w)]
Slice(t, h) ==
  LET c == th[t] lo == LenLo(c.s, c.lo) hi == LenHi(c.s) IN
  /\ c.o \in {"slice", "asl"}
  /\ SameVec
  /\ LET rg(n) == IF c.o = "asl" THEN <<0, n>> ELSE SubRange(c.a[2], c.a[3], c.a[4], n)
     IN \E n \in Cand(h, lo, hi, 1, LAMBDA x : rg(x)[2]) :
          Done(t, h, "ok", <<rg(n)[2]>>) /\ SetWin(c.a[1], Win(c.s, rg(n)))
Split(t, h) ==
  LET c == th[t] lo == LenLo(c.s, c.lo) hi == LenHi(c.s) b == Base(c.s) IN
  /\ c.o \in {"spat", "spf", "spl"}
  /\ SameVec
  /\ CASE c.o = "spat" ->
            LET m == Ix(c.a[3]) IN
            \/ m > lo /\ Done(t, h, "panic", <<>>) /\ UNCHANGED reg
            \/ /\ m <= hi
               /\ \E n \in Cand(h, Max2(lo, m), hi, 2, LAMBDA x : x - m) :
                     /\ Done(t, h, "ok", <<m, n - m>>)
                     /\ reg' = [reg EXCEPT !.win = SetReg(SetReg(@, c.a[1], <<b, m>>), c.a[2], Win(c.s, <<m, n - m>>))]
       [] OTHER ->
            \/ lo = 0 /\ Done(t, h, "none", <<>>) /\ UNCHANGED reg
            \/ PanicNow(t, h) /\ UNCHANGED reg
            \/ /\ ~Fired(t)
               /\ \E n \in Cand(h, Max2(lo, 1), hi, 2, LAMBDA x : x - 1) :
                  IF c.o = "spf" THEN Done(t, h, "some", <<At(b), n - 1>>) /\ SetWin(c.a[1], Win(c.s, <<1, n - 1>>))
                  ELSE Done(t, h, "some", <<At(b + n - 1), n - 1>>) /\ SetWin(c.a[1], Win(c.s, <<0, n - 1>>))
Chunks(t, h) ==
  LET c == th[t] lo == LenLo(c.s, c.lo) hi == LenHi(c.s) q == Ix(c.a[1])
      sizes(n) == LET m == CeilDiv(n, q) IN <<m>> \o [i \in 1..m |-> IF i = m THEN n - (m - 1) * q ELSE q]
  IN /\ c.o = "chk"
     /\ SameVec /\ UNCHANGED reg
     /\ \/ PanicNow(t, h)
        \/ q = 0 /\ Done(t, h, "panic", <<>>)
        \/ /\ q > 0 /\ c.pc = "start" /\ ~Fired(t)
           /\ \E n \in {m \in lo..hi : Part(h, sizes(m))} :
                 Cont(t, h, [c EXCEPT !.pc = "vals", !.x = n, !.out = sizes(n)])
        \/ c.pc = "vals" /\ ~Fired(t) /\ c.k = c.x /\ Done(t, h, "ok", c.out)
        \/ c.pc = "vals" /\ ~Fired(t) /\ c.k < c.x /\ Cont(t, h, [c EXCEPT !.k = @ + 1, !.out = Append(@, At(Base(c.s) + c.k))])

\* chunks consumed one by one: they partition what the vector or slice held when chunks was called
ChkOpen(t, h) ==
  LET c == th[t] lo == LenLo(c.s, c.lo) hi == LenHi(c.s) q == Ix(c.a[2]) IN
  /\ c.o = "chkopen"
  /\ SameVec
  /\ \/ q = 0 /\ Done(t, h, "panic", <<>>) /\ UNCHANGED reg
     \/ /\ q > 0
        /\ \E n \in Cand(h, lo, hi, 1, LAMBDA x : CeilDiv(x, q)) :
             /\ Done(t, h, "ok", <<CeilDiv(n, q)>>)
             /\ reg' = [reg EXCEPT !.chk = SetReg(@, c.a[1], [b |-> Base(c.s), n |-> n, q |-> q, k |-> 0])]
ChkNext(t, h) ==
  LET c == th[t]
      has == c.a[1] \in DOMAIN reg.chk
      g == reg.chk[c.a[1]]
      len == Min2(g.q, g.n - g.k)
  IN
  /\ c.o = "chknext"
  /\ SameVec
  /\ IF ~has THEN Done(t, h, "skip", <<>>) /\ UNCHANGED reg
     ELSE IF g.k >= g.n THEN Done(t, h, "none", <<>>) /\ UNCHANGED reg
     ELSE /\ Done(t, h, "some", <<len, CeilDiv(g.n - g.k - len, g.q)>>)
          /\ reg' = [reg EXCEPT !.chk = SetReg(@, c.a[1], [g EXCEPT !.k = @ + len]), !.win = SetReg(@, c.a[2], <<g.b + g.k, len>>)]

(******************************* exclusive calls ****************************)
Fresh(vs, m) == cells' = vs /\ cp' = Contig(vs, 0) /\ rsv' = Len(vs) /\ maxc' = m /\ capL' = 0 /\ reg' = NoReg
Excl(t, h) ==
  LET c == th[t] IN
  /\ Alone(t)
  /\ CASE c.o \in {"new", "newdef"} -> Fresh(<<>>, c.a0) /\ Done(t, h, "ok", <<>>)
       [] c.o = "from" -> \E m \in CandBig(h, Max2(Len(c.a), 1), Inf, 1) : Fresh(c.a, m) /\ Done(t, h, "ok", <<m>>)
       [] c.o = "coll" -> IF Fired(t) THEN Fresh(<<>>, c.a0) /\ Done(t, h, "panic", <<>>)
                          ELSE Fresh(Tail(c.a), c.a0) /\ Done(t, h, "ok", <<>>)
       [] c.o = "clear" -> Fresh(<<>>, maxc) /\ IF Fired(t) THEN Done(t, h, "panic", <<>>) ELSE Done(t, h, "ok", <<maxc>>)
       \* every published value stays, positions handed out in vain behind the last of them are given back
       [] c.o = "resv" -> \E m \in CandBig(h, Max2(maxc, Min2(Ix(c.a[1]), 1000000000)), Inf, 1) : Fresh(cells, m) /\ Done(t, h, "ok", <<m, m>>)
       [] c.o = "rt" -> /\ 0 \notin Range0(cells)
                        /\ \E m \in CandBig(h, Max2(Len(cells), Min2(maxc, 1)), Inf, 2) : Fresh(cells, m) /\ Done(t, h, "ok", <<Len(cells), m>> \o cells)
       [] c.o \in {"into", "tovec"} -> /\ 0 \notin Range0(cells)
                                       /\ Fresh(<<>>, maxc) /\ Done(t, h, "ok", cells)
       [] c.o = "intoit" -> /\ 0 \notin Range0(cells)
                            /\ Fresh(<<>>, maxc) /\ Done(t, h, "ok", SubSeq(cells, 1, Min2(Ix(c.a[1]), Len(cells))))
       [] c.o = "intoa" -> /\ 0 \notin Range0(cells)
                           /\ Fresh(<<>>, maxc) /\ Done(t, h, "ok", Adapted(c.a[1], Ix(c.a[2]), cells))
       [] c.o = "drop" -> Fresh(<<>>, maxc) /\ Done(t, h, "ok", <<>>)
       \* the values alive in the whole program are exactly the stored ones
       [] c.o = "live" -> UNCHANGED <<cells, cp, rsv, maxc, capL, reg>> /\ Done(t, h, "ok", Sorted(cells))
       [] OTHER -> FALSE
\* calls a configuration of the client cannot make (e.g. == exists only for the default storage)
SkipOps == {"clonev", "eqr", "eqv", "eqsl", "eqar", "live"}
Skip(t, h) == th[t].o \in SkipOps /\ h.k = "skip" /\ SameVec /\ UNCHANGED reg /\ Done(t, h, "skip", <<>>)

\* the window a call works on does not exist because an earlier call did not provide it
Lost(t) ==
  LET c == th[t] no(s) == s # 0 /\ s \notin DOMAIN reg.win
  IN no(c.s) \/ (c.o = "eqr" /\ no(c.a[1]))

(************************************ calls *********************************)
\* op: [o |-> name, s |-> window register (0: the vector), p |-> panic injected, a |-> arguments, a0 |-> default maximum capacity, c |-> id]
Call(t, op) ==
  /\ th[t].st = "idle"
  /\ th' = [th EXCEPT ![t] = [st |-> "run", o |-> op.o, s |-> op.s, p |-> op.p, a |-> op.a, a0 |-> op.a0, c |-> op.c,
                              lo |-> cp, clo |-> Max2(capL, Len(cells)), pc |-> "start", idx |-> 0, k |-> 0, x |-> 0, out |-> <<>>]]
  /\ UNCHANGED <<cells, cp, rsv, maxc, capL, reg>>
Step(t, h) ==
  /\ th[t].st = "run"
  /\ LET o == th[t].o IN
     CASE Lost(t) -> SameVec /\ UNCHANGED reg /\ Done(t, h, "lost", <<>>)
       [] o \in GrowOps -> Reserve(t, h) \/ Publish(t, h)
       [] o = "pushr" -> PushR(t, h)
       [] o \in {"len", "isempty", "cap", "maxcap"} -> Measure(t, h)
       [] o \in ElemReads \cup ElemWrites \cup RawReads \cup RawWrites -> Elem(t, h)
       [] o = "hold" -> Hold(t, h)
       [] o \in {"hc", "hm", "hr", "hu"} -> Held(t, h)
       [] o = "swap" -> Swap(t, h)
       [] o \in {"fill", "fillw", "filld", "fillwd"} -> Fill(t, h)
       [] o \in IterOps -> Iter(t, h) \/ Skip(t, h)
       [] o = "ita" -> IterAdapt(t, h)
       [] o = "filt" -> Filter(t, h)
       [] o = "red" -> Reduce(t, h)
       [] o \in {"itopen", "icopen", "imopen"} -> ItOpen(t, h)
       [] o = "chkopen" -> ChkOpen(t, h)
       [] o = "chknext" -> ChkNext(t, h)
       [] o = "itnext" -> ItNext(t, h)
       [] o \in {"itref", "itmut", "itmutn"} -> IterRef(t, h)
       [] o = "reref" -> ReRef(t, h)
       [] o \in {"idxof", "cont"} -> Search(t, h)
       [] o \in {"eqsl", "eqar", "eqv"} -> EqConst(t, h) \/ Skip(t, h)
       [] o = "eqr" -> EqReg(t, h) \/ Skip(t, h)
       [] o = "eqe" -> EqElem(t, h)
       [] o \in {"slice", "asl"} -> Slice(t, h)
       [] o \in {"spat", "spf", "spl"} -> Split(t, h)
       [] o = "chk" -> Chunks(t, h)
       [] OTHER -> Excl(t, h) \/ Skip(t, h)
Ret(t) ==
  /\ th[t].st = "done"
  /\ th' = [th EXCEPT ![t] = Nil]
  /\ UNCHANGED <<cells, cp, rsv, maxc, capL, reg>>

(********************************* invariants *******************************)
WellFormed ==
  /\ cp = Contig(cells, 0)
  /\ Len(cells) <= rsv
  /\ Len(cells) <= maxc
  /\ cells = <<>> \/ cells[Len(cells)] # 0
\* no two pending growing calls own a common position, and what they own is unwritten
Owned(t) == IF th[t].st = "run" /\ th[t].o \in GrowOps /\ th[t].pc = "pub"
            THEN th[t].idx + th[t].k..th[t].idx + GrowN(th[t]) - 1 ELSE {}
OwnedOnce ==
  /\ \A t \in Threads : \A i \in Owned(t) : i < rsv /\ ~Published(i)
  /\ \A t, u \in Threads : t # u => Owned(t) \cap Owned(u) = {}
=============================================================================
