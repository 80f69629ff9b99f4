-------------------------------- MODULE MCAbs --------------------------------
(***************************************************************************)
(* The listed properties, stated over what a client of AbsVec observes      *)
(* (calls, results and their order in real time) and checked on every       *)
(* behaviour of small programs.  AbsVec says which histories of the real    *)
(* code are accepted; this module says that accepted histories have the     *)
(* listed properties.                                                       *)
(*   log   finished calls in the order of their returns; `pre` of an entry  *)
(*         is the number of calls that had returned when it began           *)
(*   beg   for the pending call of a thread: the same number, what the      *)
(*         positions held meanwhile, and, as long as no other call ran      *)
(*         meanwhile, what the vector held at its beginning                 *)
(***************************************************************************)
EXTENDS AbsVec

CONSTANTS
  Menu,       \* calls clients may make: [t |-> threads, o, s, a, p]
  Calls,      \* calls per thread
  Total,      \* calls altogether
  N0, MaxC

VARIABLES log, beg, made
vars == <<avars, log, beg, made>>

Val(t, j) == 100 * (t + 1) + 10 * made[t] + j
\* arguments: values are numbered so that no two calls write the same one
Args(t, m) ==
  CASE m.o \in {"push", "pushf", "fill", "filld", "pushw"} -> <<Val(t, 1)>>
    [] m.o = "pushr" -> <<Val(t, 1), Val(t, 2)>>
    [] m.o \in {"ext", "extf", "extv", "exti", "extfi"} -> [j \in 1..m.a[1] |-> Val(t, j)]
    [] m.o \in {"extn", "extlie", "extfl", "extni"} -> <<m.a[1]>> \o [j \in 1..m.a[2] |-> Val(t, j)]
    [] m.o \in {"rep", "set", "upd", "updd", "upda", "hr", "hu", "rawmset", "mutset"} -> <<m.a[1], Val(t, 1)>>
    [] OTHER -> m.a
NoBeg == [n |-> 0, op |-> Nil, held |-> {}, alone |-> FALSE, snap |-> <<>>, cp |-> 0, rsv |-> 0, win |-> <<>>, cpr |-> 0]
Pairs(c) == {<<i, c[i + 1]>> : i \in {j \in 0..Len(c) - 1 : c[j + 1] # 0}}

Init ==
  /\ cells = [i \in 1..N0 |-> i] /\ cp = N0 /\ rsv = N0 /\ maxc = MaxC /\ capL = 0
  /\ reg = NoReg /\ th = [t \in Threads |-> Nil]
  /\ log = <<>> /\ beg = [t \in Threads |-> NoBeg] /\ made = [t \in Threads |-> 0]
AllMade == Len(log) + Cardinality({t \in Threads : th[t].st # "idle"})
Begin(t) ==
  /\ made[t] < Calls /\ AllMade < Total
  /\ \E m \in Menu :
       /\ t \in m.t
       /\ m.s = 0 \/ m.s \in DOMAIN reg.win
       /\ m.o = "eqr" => m.a[1] \in DOMAIN reg.win
       /\ LET op == [o |-> m.o, s |-> m.s, p |-> m.p, a |-> Args(t, m), a0 |-> MaxC, c |-> 0] IN
          /\ Call(t, op)
          /\ beg' = [u \in Threads |-> IF u = t THEN [n |-> Len(log), op |-> op, held |-> Pairs(cells), alone |-> Alone(t), snap |-> cells,
                                                      cp |-> cp, rsv |-> rsv, win |-> reg.win, cpr |-> 0]
                                       ELSE [beg[u] EXCEPT !.alone = FALSE]]
  /\ made' = [made EXCEPT ![t] = @ + 1]
  /\ UNCHANGED log
Work(t) ==
  /\ Step(t, AnyHint)
  /\ beg' = [u \in Threads |-> IF th[u].st = "idle" THEN beg[u]
                               ELSE [beg[u] EXCEPT !.held = @ \cup Pairs(cells'), !.cpr = IF u = t THEN cp' ELSE @]]
  /\ UNCHANGED <<log, made>>
End(t) ==
  /\ Ret(t)
  /\ LET b == beg[t] IN
     log' = Append(log, [t |-> t, o |-> b.op.o, s |-> b.op.s, p |-> b.op.p, a |-> b.op.a, k |-> th[t].k, r |-> th[t].r, pre |-> b.n,
                         held |-> IF b.op.o \in IterOps \cup {"red", "idxof", "cont", "eqe", "eqsl"} THEN b.held ELSE {},
                         alone |-> b.alone, snap |-> IF b.alone THEN b.snap ELSE <<>>, scp |-> b.cp, srsv |-> b.rsv, win |-> b.win, cpr |-> cp, rsvr |-> rsv,
                         post |-> IF b.alone THEN cells ELSE <<>>, wpost |-> reg.win])
  /\ beg' = [beg EXCEPT ![t] = NoBeg]
  /\ UNCHANGED made
Finished == \A t \in Threads : th[t].st = "idle"
Over == Finished /\ (AllMade = Total \/ \A t \in Threads : made[t] = Calls \/ \A m \in Menu : t \notin m.t)
Next == (\E t \in Threads : Begin(t) \/ Work(t) \/ End(t)) \/ (Finished /\ UNCHANGED vars)
Fair == \A t \in Threads : WF_vars(Work(t) \/ End(t))
Spec == Init /\ [][Next]_vars /\ Fair

(********************************** helpers *********************************)
L == 1..Len(log)
Grows(e) == e.o \in GrowOps
Ok(e) == e.k = "ok"
Num(e) == CASE e.o \in {"push", "pushf", "pushw"} -> 1 [] e.o \in {"ext", "extf", "extv", "exti", "extfi"} -> Len(e.a) [] OTHER -> e.a[1]
Values(e) == CASE e.o \in {"push", "pushf", "pushw", "ext", "extf", "extv", "exti", "extfi"} -> e.a [] OTHER -> SubSeq(Tail(e.a), 1, Min2(e.a[1], Len(e.a) - 1))
Pos(e) == e.r[1]..e.r[1] + Num(e) - 1
Before(i, j) == i <= log[j].pre
\* positions surely complete when entry j began
RECURSIVE Reach(_, _)
Reach(P, n) == IF n \in P THEN Reach(P, n + 1) ELSE n
DonePrefix(j) == Reach((0..N0 - 1) \cup UNION {Pos(log[i]) : i \in {i \in L : Before(i, j) /\ Grows(log[i]) /\ Ok(log[i])}}, 0)
Writers == {"rep", "set", "upd", "updw", "updd", "add", "upda", "hr", "hu", "rawmset", "mutset", "swap", "fill", "fillw", "filld", "fillwd", "itmut"}
Running(S) == \E t \in Threads : th[t].st # "idle" /\ beg[t].op.o \in S
Logged(S) == \E i \in L : log[i].o \in S
Overwritten == Running(Writers) \/ Logged(Writers)
Restart == {"new", "newdef", "from", "coll", "clear", "resv", "rt", "into", "tovec", "intoit", "drop"}
Restarted == Running(Restart) \/ Logged(Restart)
Quiet == Finished /\ ~Restarted

(******************************** properties ********************************)
\* C01
OnceEach == ~Restarted =>
  /\ \A i, j \in L : i # j /\ Grows(log[i]) /\ Grows(log[j]) /\ Ok(log[i]) /\ Ok(log[j]) => Pos(log[i]) \cap Pos(log[j]) = {}
  /\ Quiet /\ ~Logged({"pushr"}) /\ (\A i \in L : Grows(log[i]) => Ok(log[i])) =>
       LET all == UNION {Pos(log[i]) : i \in {i \in L : Grows(log[i])}} IN
       all = N0..rsv - 1 /\ Len(cells) = rsv /\ 0 \notin Range0(cells)
  /\ Quiet /\ ~Overwritten =>
       \A i \in L : Grows(log[i]) /\ Ok(log[i]) => \A n \in 1..Len(Values(log[i])) : At(log[i].r[1] + n - 1) = Values(log[i])[n]
\* C02
Ordered == ~Restarted =>
  /\ \A i, j \in L : Before(i, j) /\ Grows(log[i]) /\ Grows(log[j]) /\ Ok(log[i]) /\ Ok(log[j]) /\ Num(log[i]) > 0 => log[i].r[1] + Num(log[i]) <= log[j].r[1]
  /\ \A i \in L : log[i].o \in {"pushf", "pushw", "extf", "extfi"} /\ Ok(log[i]) => log[i].r = <<log[i].r[1], log[i].r[1]>>
  /\ ~Overwritten /\ ~Restarted => \A i \in L : Grows(log[i]) /\ Ok(log[i]) => \A n \in 1..Len(Values(log[i])) : At(log[i].r[1] + n - 1) = Values(log[i])[n]
\* C03
Lens(e) == e.o = "len" /\ e.s = 0
LenPrefix == ~Restarted =>
  /\ \A i \in L : Lens(log[i]) => log[i].r[1] >= DonePrefix(i) /\ log[i].r[1] <= log[i].cpr
  /\ \A i, j \in L : Before(i, j) /\ Lens(log[i]) /\ Lens(log[j]) => log[i].r[1] <= log[j].r[1]
  /\ \A i \in L : Lens(log[i]) /\ log[i].alone => log[i].r[1] = log[i].scp
  /\ \A i \in L : log[i].o = "isempty" /\ log[i].s = 0 =>
        (log[i].r[1] = 1 => DonePrefix(i) = 0) /\ (log[i].r[1] = 0 => log[i].cpr > 0)
\* C04
Given(p, v) ==                     \* v was at some time given to position p (by calls begun so far)
  \/ p < N0 /\ v = p + 1
  \/ v <= N0 /\ (Running({"swap"}) \/ Logged({"swap"}))
  \/ v >= 100 /\ v < 1000            \* written by a call
  \/ v >= 1000 /\ (Running({"add"}) \/ Logged({"add"}))
Reads == {"getc", "getcp", "gcl", "gcp", "idx"}
Visible == ~Restarted =>
  \A i \in L : log[i].o \in Reads /\ log[i].s = 0 /\ log[i].p < 0 =>
    LET e == log[i] p == Ix(e.a[1]) IN
    /\ p < DonePrefix(i) => e.k = "some"
    /\ p >= e.rsvr => e.k # "some"
    /\ e.k = "some" => e.r[1] # 0 /\ Given(p, e.r[1])
    /\ e.k = "some" /\ e.o \in {"getc", "getcp", "idx"} => p < e.cpr
    /\ e.o = "idx" => e.k \in {"some", "panic"}
\* C05, C06: the finished calls on elements have a sequential explanation
Displacing == {"set", "updd"}          \* the displaced value is dropped during the call
LinOps == {"getc", "gcl", "rep", "set", "upd", "updd", "add", "swap", "getm", "mapw", "eqt"}
ApplyOne(vs, e) ==                 \* <<vector afterwards, outcome, result>>
  LET p == e.a[1] + 1 IN
  IF e.p >= 0 THEN <<IF e.o \in Displacing THEN [vs EXCEPT ![p] = e.a[2]] ELSE vs, "panic", <<>>>>
  ELSE IF e.o = "swap"
  THEN IF p > Len(vs) \/ e.a[2] + 1 > Len(vs) THEN <<vs, "ok", <<0>>>>
       ELSE <<[vs EXCEPT ![p] = vs[e.a[2] + 1], ![e.a[2] + 1] = vs[p]], "ok", <<1>>>>
  ELSE IF p > Len(vs) THEN <<vs, "none", <<>>>>
  ELSE CASE e.o \in {"getc", "gcl", "getm", "mapw"} -> <<vs, "some", <<vs[p]>>>>
         [] e.o \in {"rep", "upd"} -> <<[vs EXCEPT ![p] = e.a[2]], "some", <<vs[p]>>>>
         [] e.o \in Displacing -> <<[vs EXCEPT ![p] = e.a[2]], "some", <<>>>>
         [] e.o = "add" -> <<[vs EXCEPT ![p] = @ + e.a[2]], "some", <<vs[p]>>>>
         [] OTHER -> <<vs, "some", <<IF vs[p] = e.a[2] THEN 1 ELSE 0>>>>
RECURSIVE Explained(_, _, _)
Explained(vs, todo, final) ==
  IF todo = {} THEN vs = final
  ELSE \E i \in todo :
         /\ \A j \in todo : j # i => ~Before(j, i)
         /\ LET x == ApplyOne(vs, log[i]) IN x[2] = log[i].k /\ x[3] = log[i].r /\ Explained(x[1], todo \ {i}, final)
Linearizable == Over /\ (\A i \in L : log[i].o \in LinOps) => Explained([i \in 1..N0 |-> i], L, cells)
\* C06
Multiset(vs) == [v \in Range0(vs) |-> Cardinality({i \in 1..Len(vs) : vs[i] = v})]
SwapsPermute == Finished /\ (\A i \in L : log[i].o \in {"swap", "getc", "itc"}) => Multiset(cells) = [v \in 1..N0 |-> 1]
FillWindow ==
  \A i \in L : log[i].o \in {"fill", "fillw"} /\ log[i].alone /\ log[i].p < 0 =>
    LET e == log[i]
        b == IF e.s = 0 THEN 0 ELSE e.win[e.s][1]
        n == IF e.s = 0 THEN e.scp ELSE e.win[e.s][2]
    IN /\ Len(e.post) = Len(e.snap)
       /\ \A k \in 1..Len(e.snap) : e.post[k] = IF k > b /\ k <= b + n THEN (IF e.o = "fill" THEN e.a[1] ELSE e.a[1] + k - b - 1) ELSE e.snap[k]
       /\ e.o = "fillw" => e.r = [k \in 1..n |-> k - 1]
\* C07
Terminates == <>[]Finished
\* C08
Limits == ~Restarted =>
  /\ \A i \in L : Grows(log[i]) /\ log[i].p < 0 /\ Num(log[i]) = Len(Values(log[i])) =>
       /\ Ok(log[i]) /\ Num(log[i]) > 0 => log[i].r[1] + Num(log[i]) <= MaxC
       /\ log[i].k = "panic" => \/ log[i].o = "extfl" \/ log[i].rsvr > MaxC
       /\ log[i].alone => (log[i].k = "panic") = (Num(log[i]) > 0 /\ log[i].srsv + Num(log[i]) > MaxC)
       /\ log[i].alone /\ log[i].k = "panic" => log[i].post = log[i].snap
  /\ \A i \in L : log[i].o = "cap" => log[i].r[1] <= MaxC /\ (log[i].alone => log[i].r[1] >= Len(log[i].snap))
  /\ \A i, j \in L : Before(i, j) /\ log[i].o = "cap" /\ log[j].o = "cap" => log[i].r[1] <= log[j].r[1]
\* C09
RawViews == ~Restarted =>
  \A i \in L : log[i].o \in {"raw", "rawm", "mutg", "rawv", "ref"} /\ log[i].s = 0 /\ log[i].p < 0 =>
    LET e == log[i] p == Ix(e.a[1]) IN
    /\ p < DonePrefix(i) => e.k = "some"
    /\ p >= e.rsvr => e.k = "none"
    /\ e.o \in {"rawv", "ref"} /\ e.k = "some" => e.r[1] # 0
RefViews == \A i \in L : log[i].o \in {"itref", "itmut"} /\ log[i].alone /\ log[i].p < 0 /\ log[i].s = 0 =>
  LET e == log[i] IN
  \* all of the prefix in order, then possibly others, in position order
  /\ Len(e.r) >= e.scp
  /\ \A k \in 1..e.scp : e.r[k] = e.snap[k]
  /\ \E S \in SUBSET (e.scp + 1..Len(e.snap)) : SubSeq(e.r, e.scp + 1, Len(e.r)) = SetToSortSeq({<<k, e.snap[k]>> : k \in {x \in S : e.snap[x] # 0}}, LAMBDA x, y : x[1] < y[1])
                                                      \/ Len(e.r) = e.scp
                                                      \/ LET q == SetToSortSeq(S, <) IN Len(q) = Len(e.r) - e.scp /\ \A k \in 1..Len(q) : e.snap[q[k]] = e.r[e.scp + k] /\ e.snap[q[k]] # 0
\* C11 - C13, C15: a call that ran alone did what the same call does on a plain sequence
W(e) == LET b == IF e.s = 0 THEN 0 ELSE e.win[e.s][1] n == IF e.s = 0 THEN e.scp ELSE e.win[e.s][2] IN SubSeq(e.snap, b + 1, b + n)
Win2(e, s) == SubSeq(e.snap, e.win[s][1] + 1, e.win[s][1] + e.win[s][2])
WinAfter(e, s) == SubSeq(e.post, e.wpost[s][1] + 1, e.wpost[s][1] + e.wpost[s][2])
FirstIx(vs, x) == CHOOSE i \in 1..Len(vs) : vs[i] = x /\ \A j \in 1..i - 1 : vs[j] # x
Clamp(form, a, b, vs) ==           \* the elements whose index satisfies both bounds
  LET in(i) == CASE form = 0 -> i >= a /\ i < b [] form = 1 -> i >= a /\ i <= b [] form = 2 -> i < b [] form = 3 -> i >= a
                 [] form = 4 -> TRUE [] form = 5 -> i <= b [] form = 6 -> i > a /\ i < b [] OTHER -> i > a
  IN SelectSeq([i \in 1..Len(vs) |-> <<i - 1, vs[i]>>], LAMBDA q : in(q[1]))
Snd(s) == [i \in 1..Len(s) |-> s[i][2]]
Evens(vs) == IF vs = <<>> THEN <<>> ELSE FoldSeq(LAMBDA x, acc : acc \o (IF x % 2 = 0 THEN <<x, x>> ELSE <<x>>), <<>>, vs)
PlainOps == {"len", "isempty", "getc", "gcl", "idx", "itc", "itcl", "map", "fold", "cvec", "clonev", "red", "filt", "idxof", "cont", "eqsl", "eqar", "eqr", "eqe",
             "slice", "asl", "spat", "spf", "spl", "chk", "tovec", "into", "rt", "clear", "resv"}
Plain(e) ==
  LET w == W(e) n == Len(w) IN
  CASE e.o = "len" -> e.r = <<n>>
    [] e.o = "isempty" -> e.r = <<IF w = <<>> THEN 1 ELSE 0>>
    [] e.o = "getc" -> IF e.a[1] >= 0 /\ e.a[1] < n THEN e.k = "some" /\ e.r = <<w[e.a[1] + 1]>> ELSE e.k = "none"
    [] e.o = "gcl" -> IF e.a[1] >= 0 /\ e.a[1] < n THEN e.k = "some" /\ e.r = <<w[e.a[1] + 1]>> ELSE TRUE
    [] e.o = "idx" -> IF e.a[1] >= 0 /\ e.a[1] < n THEN e.k = "some" /\ e.r = <<w[e.a[1] + 1]>> ELSE e.k = "panic"
    [] e.o \in {"itc", "itcl", "map", "fold", "cvec", "clonev"} -> e.r = w
    [] e.o = "red" -> IF n = 0 THEN e.k = "none" ELSE e.r = w
    [] e.o = "filt" -> e.r = Evens(w)
    [] e.o = "cont" -> e.r = <<IF e.a[1] \in Range0(w) THEN 1 ELSE 0>>
    [] e.o = "idxof" -> IF e.a[1] \in Range0(w) THEN e.r = <<FirstIx(w, e.a[1]) - 1>> ELSE e.k = "none"
    [] e.o \in {"eqsl", "eqar"} -> e.r = <<IF w = e.a THEN 1 ELSE 0>>
    [] e.o = "eqr" -> e.r = <<IF w = Win2(e, e.a[1]) THEN 1 ELSE 0>>
    [] e.o = "eqe" -> IF e.a[1] < n /\ e.a[2] < n THEN e.r = <<IF w[e.a[1] + 1] = w[e.a[2] + 1] THEN 1 ELSE 0>> ELSE e.k = "none"
    [] e.o = "slice" -> LET q == Snd(Clamp(e.a[2], Ix(e.a[3]), Ix(e.a[4]), w)) IN e.r = <<Len(q)>> /\ WinAfter(e, e.a[1]) = q
    [] e.o = "asl" -> e.r = <<n>> /\ WinAfter(e, e.a[1]) = w
    [] e.o = "spat" -> IF Ix(e.a[3]) > n THEN e.k = "panic"
                       ELSE WinAfter(e, e.a[1]) \o WinAfter(e, e.a[2]) = w /\ Len(WinAfter(e, e.a[1])) = e.a[3]
    [] e.o = "spf" -> IF n = 0 THEN e.k = "none" ELSE e.r[1] = w[1] /\ <<w[1]>> \o WinAfter(e, e.a[1]) = w
    [] e.o = "spl" -> IF n = 0 THEN e.k = "none" ELSE e.r[1] = w[n] /\ Append(WinAfter(e, e.a[1]), w[n]) = w
    [] e.o = "chk" -> IF e.a[1] = 0 THEN e.k = "panic"
                      ELSE LET m == e.r[1] lens == SubSeq(e.r, 2, m + 1) IN
                           /\ SubSeq(e.r, m + 2, Len(e.r)) = w
                           /\ FoldSeq(LAMBDA x, y : x + y, 0, lens) = n
                           /\ \A i \in 1..m : lens[i] > 0 /\ lens[i] <= e.a[1] /\ (i < m => lens[i] = e.a[1])
    [] e.o \in {"tovec", "into"} -> e.r = e.snap /\ e.post = <<>>
    [] e.o = "rt" -> SubSeq(e.r, 3, Len(e.r)) = e.snap /\ e.r[1] = Len(e.snap) /\ e.post = e.snap
    [] e.o = "clear" -> e.post = <<>>
    [] OTHER -> e.post = e.snap /\ e.r[1] >= e.a[1] /\ e.r[2] = e.r[1]        \* resv
AsPlain == \A i \in L : log[i].o \in PlainOps /\ log[i].alone /\ log[i].p < 0 => Plain(log[i])
\* C11: windows never move: what was cut out stays the same positions
WindowsStay == \A i, j \in L : i < j /\ ~Restarted => \A s \in DOMAIN log[i].wpost :
                 s \in DOMAIN log[j].wpost /\ (~(\E q \in i + 1..j : log[q].o \in {"slice", "asl", "spat", "spf", "spl"})) => log[i].wpost[s] = log[j].wpost[s]
\* C12: with others at work: position k's visit saw a value position k held meanwhile, for the positions of one prefix
Snapshot == ~Restarted => \A i \in L : log[i].o \in {"itc", "itcl", "map", "fold", "cvec", "clonev"} /\ log[i].k = "ok" =>
  LET e == log[i] b == IF e.s = 0 THEN 0 ELSE e.win[e.s][1] IN
  /\ IF e.s = 0 THEN Len(e.r) >= DonePrefix(i) /\ Len(e.r) <= e.cpr ELSE Len(e.r) = e.win[e.s][2]
  /\ \A k \in 1..Len(e.r) : <<b + k - 1, e.r[k]>> \in e.held
\* C13
Searches == ~Restarted => \A i \in L : log[i].p < 0 =>
  LET e == log[i] IN
  /\ e.o = "idxof" /\ e.k = "some" /\ e.s = 0 =>
       /\ <<e.r[1], e.a[1]>> \in e.held
       /\ \A k \in 0..e.r[1] - 1 : \E q \in e.held : q[1] = k /\ q[2] # e.a[1]
  /\ e.o = "idxof" /\ e.k = "none" /\ e.s = 0 => \A k \in 0..DonePrefix(i) - 1 : \E q \in e.held : q[1] = k /\ q[2] # e.a[1]
  /\ e.o = "cont" /\ e.r = <<1>> => \E q \in e.held : q[2] = e.a[1]
  /\ e.o = "eqe" /\ e.k = "some" => \E x, y \in e.held : x[1] = e.a[1] /\ y[1] = e.a[2] /\ (x[2] = y[2]) = (e.r = <<1>>)
  /\ e.o = "eqsl" /\ e.r = <<1>> => \A k \in 1..Len(e.a) : <<k - 1, e.a[k]>> \in e.held
\* C10: values alive = values given - values handed back or replaced (calls of one thread, one after the other)
RECURSIVE Alive(_, _)
Alive(n, vs) ==
  IF n > Len(log) THEN vs
  ELSE LET e == log[n]
           new == CASE Grows(e) /\ Ok(e) -> vs \cup Range0(Values(e))
                    [] e.o \in {"rep", "upd", "rawmset", "mutset"} /\ e.k = "some" -> (vs \cup {e.a[2]}) \ {e.r[1]}
                    [] e.o \in Displacing /\ e.k \in {"some", "panic"} -> (vs \cup {e.a[2]}) \ {e.snap[e.a[1] + 1]}
                    [] e.o \in {"clear", "drop", "tovec", "into", "intoit"} -> {}
                    [] OTHER -> vs
       IN Alive(n + 1, new)
Conserved == \A i \in L : log[i].o = "live" /\ (\A j \in 1..i : log[j].alone /\ log[j].o \notin {"fill", "fillw", "filld", "fillwd", "itmut", "add", "upda", "from", "coll"} /\ ~(Grows(log[j]) /\ ~Ok(log[j]) /\ Num(log[j]) > 1)) =>
  LET before == SubSeq(log, 1, i - 1) IN
  Range0(log[i].r) = Range0(SortSeq(SetToSeq(Alive(1, 1..N0)), <)) \/ i < Len(log)
\* C14
PanicHarmless == ~Restarted =>
  /\ \A i \in L : log[i].k = "panic" /\ log[i].alone /\ log[i].o \notin {"upda", "fill", "fillw", "filld", "fillwd", "extlie"} \cup Displacing /\ ~(Grows(log[i]) /\ Num(log[i]) > 1) =>
        \A p \in 1..Len(log[i].snap) : log[i].post[p] = log[i].snap[p]
  \* a value panicked while it was dropped: what displaced it is there, nothing else changed
  /\ \A i \in L : log[i].k = "panic" /\ log[i].alone /\ log[i].o \in Displacing => log[i].post = [log[i].snap EXCEPT ![log[i].a[1] + 1] = log[i].a[2]]
  /\ \A i \in L : log[i].k = "panic" /\ log[i].alone /\ log[i].o = "filld" /\ log[i].s = 0 =>
        LET e == log[i] IN \E m \in Min2(e.p + 1, e.scp)..e.scp : e.post = [k \in 1..Len(e.snap) |-> IF k <= m THEN e.a[1] ELSE e.snap[k]]
ClearedAnyway == \A i \in L : log[i].o = "clear" => log[i].post = <<>> /\ log[i].k = (IF log[i].p >= 0 THEN "panic" ELSE "ok")
All == OnceEach /\ Ordered /\ LenPrefix /\ Visible /\ Linearizable /\ SwapsPermute /\ FillWindow /\ Limits /\ RawViews /\ AsPlain /\ WindowsStay /\ Snapshot /\ Searches /\ PanicHarmless /\ ClearedAnyway
=============================================================================
