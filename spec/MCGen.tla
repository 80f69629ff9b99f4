-------------------------------- MODULE MCGen --------------------------------
(***************************************************************************)
(* Behaviours of AbsVec as programs for the real code: random walks of TLC  *)
(* (-simulate) over calls of one thread whose arguments are chosen from the *)
(* state (indices around the length, windows that exist, values that are    *)
(* or are not stored).  A finished walk is printed with the results AbsVec  *)
(* predicts; check.py runs the program on the real code and compares.       *)
(***************************************************************************)
EXTENDS AbsVec, Json

CONSTANTS
  Depth,        \* calls per walk
  MaxC,         \* maximum capacity
  Focus         \* classes of calls to choose from more often
VARIABLES prog, val, cur
vars == <<avars, prog, val, cur>>

Init == Init0(MaxC) /\ prog = <<>> /\ val = 1 /\ cur = Nil

N == Len(cells)
Idx == {0, cp - 1, cp, N, N \div 2, cp + 2, -1} \cap (-1..1000)
WIdx(s) == IF s = 0 THEN Idx ELSE {0, WLen(s) - 1, WLen(s), -1} \cap (-1..1000)
Wins == {0} \cup {s \in DOMAIN reg.win : s < 5}
V(j) == val + j
New(k) == [j \in 1..k |-> V(j)]
X(o, s, a, p) == [o |-> o, s |-> s, a |-> a, p |-> p]
Some1 == IF cells = <<>> THEN 1 ELSE Max2(1, cells[Len(cells) \div 2 + 1])
Content(s, k) == LET n == Min2(k, IF s = 0 THEN cp ELSE WLen(s)) IN [j \in 1..n |-> cells[Base(s) + j]]
\* some growing call panicked: how much of it was stored is open, a conversion of a vector with inner gaps is not defined
MaybeGap == \E i \in 1..Len(prog) : prog[i].k = "panic" /\ prog[i].o \in GrowOps \cup {"pushr"} /\ \A j \in i + 1..Len(prog) : prog[j].o # "clear"
IterOpsG == (IterOps \ {"clonev"}) \cup {"filt", "red"}
\* classes, so that classes with many argument combinations do not crowd out the others
Ops(c) ==
  CASE c = "one" -> {X(o, 0, New(1), -1) : o \in {"push", "pushf"}}
    [] c = "many" -> {X(o, 0, New(k), -1) : o \in {"ext", "extv", "extf", "exti", "extfi"}, k \in {0, 1, 2, 3, 5, 9}} \cup {X("extn", 0, <<k>> \o New(k), -1) : k \in {0, 1, 4}} \cup {X("pushr", 0, New(2), -1)}
    [] c = "odd" -> {X("extlie", 0, <<2>> \o New(1), -1), X("extfl", 0, <<3>> \o New(2), -1), X("pushf", 0, New(1), 1), X("extf", 0, New(2), 1), X("exti", 0, New(2), 1), X("extni", 0, <<2>> \o New(2), 1), X("extlie", 0, <<1>> \o New(3), -1)}
    [] c = "meas" -> {X(o, s, <<>>, -1) : o \in {"len", "isempty"}, s \in Wins} \cup {X("maxcap", 0, <<>>, -1)}
    [] c = "read" -> UNION {{X(o, s, <<i>>, -1) : o \in {"get", "getc", "idx", "gcl", "raw", "rawv", "mutg", "getm"}, i \in WIdx(s)} : s \in Wins}
    [] c = "write" -> UNION {{X(o, s, <<i, V(1)>>, -1) : o \in {"rep", "set", "upd", "mutset", "rawmset"}, i \in WIdx(s)} : s \in Wins} \cup {X("add", 0, <<i, 1000>>, -1) : i \in Idx}
                     \cup {X(o, 0, <<i, V(1)>>, 0) : o \in DropOps, i \in {j \in Idx : j >= 0 /\ j < cp}} \cup {X("updd", 0, <<i, V(1)>>, -1) : i \in Idx}
    [] c = "multi" -> UNION {{X("swap", s, <<i, j>>, -1) : i \in WIdx(s), j \in WIdx(s)} : s \in Wins} \cup {X("fill", s, New(1), -1) : s \in Wins} \cup {X("fillw", s, New(1), -1) : s \in Wins} \cup (IF cp > 1 THEN {X("filld", 0, New(1), 1), X("fillwd", 0, New(1), 0)} ELSE {})
    [] c = "iter" -> {X(o, s, <<>>, -1) : o \in IterOpsG, s \in Wins} \cup {X("itref", 0, <<>>, -1), X("itmut", 0, <<1000>>, -1)}
    [] c = "adapt" -> {X("ita", s, <<w, d, n>>, -1) : s \in Wins, w \in 0..2, d \in 0..7, n \in {1, 2, 3}}
    [] c = "find" -> {X(o, s, <<v>>, -1) : o \in {"idxof", "cont"}, s \in Wins, v \in {Some1, 9999}} \cup {X("eqr", s, <<u>>, -1) : s \in Wins, u \in Wins}
                     \cup {X("eqsl", s, Content(s, k), -1) : s \in Wins, k \in {0, 1, 3, 8}}
                     \cup UNION {{X("eqe", s, <<i, j>>, -1) : i \in WIdx(s), j \in WIdx(s)} : s \in Wins}
    [] c = "cut" -> UNION {{X("slice", s, <<k, f, i, j>>, -1) : k \in 1..4, f \in {0, 2, 3, 4}, i \in WIdx(s), j \in WIdx(s)} : s \in Wins}
                    \cup UNION {{X("spat", s, <<1, 2, i>>, -1) : i \in WIdx(s)} \cup {X("spf", s, <<3>>, -1), X("spl", s, <<4>>, -1), X("chk", s, <<2>>, -1), X("chk", s, <<1>>, -1), X("chk", s, <<5>>, -1)} : s \in Wins} \cup {X("asl", 0, <<k>>, -1) : k \in 1..4}
    [] c = "lazy" -> {X(o, s, <<k>>, -1) : o \in {"itopen", "icopen", "imopen"}, s \in Wins, k \in 0..1} \cup {X("itnext", 0, <<k>>, -1) : k \in DOMAIN reg.its}
                     \cup {X("chkopen", s, <<0, q>>, -1) : s \in Wins, q \in {1, 2, 3}} \cup {X("chknext", 0, <<k, r>>, -1) : k \in DOMAIN reg.chk, r \in 1..4}
    [] c = "hold" -> {X("hold", s, <<i, h>>, -1) : s \in Wins, i \in Idx, h \in 0..1} \cup {X(o, 0, <<h, V(1)>>, -1) : o \in {"hr", "hu"}, h \in DOMAIN reg.hnd} \cup {X(o, 0, <<h>>, -1) : o \in {"hc", "hm"}, h \in DOMAIN reg.hnd}
    [] c = "again" -> {X("clear", 0, <<>>, k) : k \in {-1} \cup (IF cp > 0 THEN {0, cp - 1} ELSE {})} \cup (IF MaybeGap THEN {} ELSE {X("rt", 0, <<>>, -1)}) \cup {X("live", 0, <<>>, -1), X("resv", 0, <<N + 2>>, -1)}
Classes == {"one", "many", "odd", "meas", "read", "write", "multi", "iter", "adapt", "find", "cut", "lazy", "hold", "again"}
\* storage growth and conversion report numbers AbsVec leaves open
Pick(m) ==
  /\ Call(0, [o |-> m.o, s |-> m.s, p |-> m.p, a |-> m.a, a0 |-> MaxC, c |-> 0])
  /\ val' = val + 10 /\ cur' = m
  /\ UNCHANGED prog
Begin ==
  /\ th[0].st = "idle" /\ Len(prog) < Depth
  /\ \E c \in {IF prog = <<>> THEN "many" ELSE IF RandomElement(1..3) > 1 THEN RandomElement(Focus) ELSE RandomElement(Classes)} : IF Ops(c) = {} THEN Pick(X("len", 0, <<>>, -1)) ELSE \E m \in {RandomElement(Ops(c))} : Pick(m)
\* the silent steps of the call, one after the other (a call that runs alone has one order)
Work == Step(0, AnyHint) /\ UNCHANGED <<prog, val, cur>>
End ==
  /\ Ret(0)
  /\ prog' = Append(prog, [o |-> cur.o, s |-> cur.s, a |-> cur.a, p |-> cur.p, k |-> th[0].k, r |-> th[0].r])
  /\ UNCHANGED <<val, cur>>
Next == Begin \/ Work \/ End
Spec == Init /\ [][Next]_vars
\* prints a finished walk (evaluated once per walk: it has no successor)
Show == (th[0].st = "idle" /\ Len(prog) = Depth) => PrintT("WALK " \o ToJson(prog))
=============================================================================
