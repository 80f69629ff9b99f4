------------------------------- MODULE MCImpl -------------------------------
(* Menus of calls for model checking Impl *)
EXTENDS Impl
Op(o, a) == [o |-> o, a |-> a, p |-> -1]
Fire(o, a) == [o |-> o, a |-> a, p |-> 1]
MGrow == {Op("push", <<>>), Op("pushf", <<>>), Op("ext", <<2>>), Op("ext", <<3>>), Op("ext", <<0>>), Fire("pushf", <<>>)}
MLen == {Op("push", <<>>), Op("ext", <<2>>), Op("len", <<>>), Op("isempty", <<>>), Op("cap", <<>>), Op("add", <<0, 1000>>), Op("gcl", <<2>>), Fire("pushf", <<>>)}
MGet == {Op("push", <<>>), Op("ext", <<2>>), Op("getc", <<1>>), Op("gcl", <<1>>), Op("gcl", <<2>>), Op("raw", <<1>>), Op("raw", <<3>>), Op("rep", <<0>>), Fire("pushf", <<>>)}
MElem == {Op("getc", <<0>>), Op("gcl", <<0>>), Op("rep", <<0>>), Op("upd", <<0>>), Op("add", <<0, 1000>>), Fire("add", <<0, 1000>>), Fire("getc", <<0>>), Op("push", <<>>)}
MMulti == {Op("swap", <<0, 1>>), Op("swap", <<1, 0>>), Op("swap", <<0, 0>>), Op("swap", <<1, 2>>), Op("fill", <<>>), Op("eqe", <<0, 1>>), Op("eqe", <<1, 0>>), Op("rep", <<1>>), Op("push", <<>>)}
MIter == {Op("itc", <<>>), Op("idxof", <<2>>), Op("fill", <<>>), Op("push", <<>>), Op("ext", <<2>>), Op("rep", <<1>>), Op("swap", <<0, 1>>), Op("eqe", <<1, 0>>)}
MAll == {Op("push", <<>>), Fire("pushf", <<>>), Op("ext", <<2>>), Op("len", <<>>), Op("getc", <<1>>), Op("gcl", <<2>>), Op("raw", <<1>>), Op("add", <<0, 1000>>), Op("swap", <<1, 0>>), Op("eqe", <<0, 1>>), Op("itc", <<>>), Op("fill", <<>>)}
MPush == {Op("push", <<>>), Op("pushf", <<>>), Op("ext", <<2>>), Fire("pushf", <<>>)}
MLenS == {Op("push", <<>>), Op("len", <<>>), Op("gcl", <<2>>), Op("add", <<0, 1000>>), Fire("pushf", <<>>)}
MGetS == {Op("push", <<>>), Op("getc", <<1>>), Op("gcl", <<1>>), Op("raw", <<1>>), Op("rep", <<0>>)}
MElemS == {Op("getc", <<0>>), Op("gcl", <<0>>), Op("rep", <<0>>), Op("add", <<0, 1000>>), Fire("add", <<0, 1000>>)}
MSwap == {Op("swap", <<0, 1>>), Op("swap", <<1, 0>>), Op("swap", <<0, 0>>), Op("fill", <<>>), Op("add", <<1, 1000>>), Op("push", <<>>)}
MWait == {Op("ext", <<2>>), Op("swap", <<1, 0>>), Op("eqe", <<0, 1>>), Op("add", <<0, 1000>>), Fire("pushf", <<>>)}
MRaw == {Op("push", <<>>), Op("raw", <<0>>), Op("raw", <<1>>), Op("raw", <<3>>), Op("add", <<0, 1000>>), Op("gcl", <<1>>)}
MIterS == {Op("itc", <<>>), Op("push", <<>>), Op("fill", <<>>), Op("swap", <<0, 1>>)}
MCmp == {Op("eqe", <<0, 1>>), Op("eqe", <<1, 0>>), Op("eqe", <<1, 1>>), Op("idxof", <<2>>), Op("rep", <<1>>), Op("swap", <<0, 1>>)}
MPanic == {Fire("pushf", <<>>), Fire("add", <<0, 1000>>), Fire("getc", <<0>>), Op("push", <<>>), Op("add", <<0, 1000>>), Op("len", <<>>), Op("gcl", <<1>>)}
Caps124 == {1, 2, 4}
Caps2468 == {2, 4, 6, 8}
Caps137 == {1, 3, 7}
Caps48 == {4, 8}
Caps3 == {3}
Caps6 == {6}

(********************** the parts that are proved for any size ***************)
GPc(t) ==
  LET p == ct[t].pc IN
  CASE p \in {"permit", "grow", "len1", "len2", "len3", "len4", "len5"} -> p
    [] p = "grow2" -> "store"
    [] p \in {"closure", "write", "publish"} /\ ct[t].n > 0 -> "write"
    [] OTHER -> "idle"
GOf(t, S, x) == IF GPc(t) \in S THEN x ELSE 0
G == INSTANCE Growth WITH
  T <- Clients, Limit <- MaxCap, C0 <- NextCap(N0), Sizes <- 0..2 * MaxCap + 2,
  r <- lenR, w <- {p \in Slots : slot[p].s # "none"}, lw <- lenW,
  pc <- [t \in Clients |-> GPc(t)],
  b <- [t \in Clients |-> GOf(t, {"permit", "grow", "store", "write"}, ct[t].idx)],
  n <- [t \in Clients |-> GOf(t, {"permit", "grow", "store", "write"}, ct[t].n)],
  k <- [t \in Clients |-> GOf(t, {"permit", "grow", "store", "write"}, ct[t].k)],
  l <- [t \in Clients |-> IF GPc(t) \in {"len2", "len3"} THEN ct[t].lw ELSE GOf(t, {"len4", "len5"}, ct[t].len)],
  u <- [t \in Clients |-> GOf(t, {"len3", "len4", "len5"}, ct[t].until)],
  m <- [t \in Clients |-> 0]
RefinesGrowth == G!Spec
GrowthInv == G!Inv /\ G!Claims

\* the element a thread waits for
Wants(t) ==
  LET c == ct[t] a == c.a IN
  CASE c.pc = "lock1" -> c.q1
    [] c.pc = "lock2" -> c.q2
    [] c.pc \in {"getc", "rep", "upd", "add"} /\ a[1] < c.len -> a[1]
    [] c.pc = "eqe" /\ a[1] = a[2] /\ a[1] < c.len -> a[1]
    [] c.pc \in {"itc", "fill", "idxof"} /\ c.k < c.len -> c.k
    [] OTHER -> 0 - 1
L == INSTANCE Locks WITH
  T <- Clients, Limit <- MaxCap, Values <- Nat \union {Torn}, Unset <- 0 - 1000,
  h <- [t \in Clients |-> Holds(t)],
  q <- [t \in Clients |-> Wants(t)],
  v <- [p \in Slots |-> IF slot[p].s = "none" THEN 0 - 1000 ELSE slot[p].v]
RefinesLocks == L!LSpec
LocksInv == L!LInv /\ L!LClaims
=============================================================================
