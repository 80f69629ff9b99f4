--------------------------------- MODULE MCA ---------------------------------
(* programs for MCAbs and mutants of AbsVec that its invariants must notice *)
EXTENDS MCAbs
Cl == Threads \ {0}
Op(o, a) == [t |-> Cl, o |-> o, s |-> 0, a |-> a, p |-> -1]
OpT(ts, o, s, a) == [t |-> ts, o |-> o, s |-> s, a |-> a, p |-> -1]
Fire(o, a) == [t |-> Cl, o |-> o, s |-> 0, a |-> a, p |-> 0]
AGrow == {Op("push", <<>>), Op("pushf", <<>>), Op("ext", <<2>>), Op("ext", <<0>>), Op("extf", <<2>>), Fire("pushf", <<>>), Op("len", <<>>)}
AGrowT == AGrow \cup {Op("extn", <<2, 2>>), Op("exti", <<2>>), Fire("extni", <<2, 2>>), Fire("extfi", <<2>>), Op("extlie", <<2, 1>>), Op("extn", <<1, 2>>), Op("extfl", <<2, 1>>), Op("pushr", <<>>), Op("isempty", <<>>)}
AGet == {Op("push", <<>>), Op("ext", <<2>>), Op("getc", <<1>>), Op("gcl", <<1>>), Op("idx", <<2>>), Op("raw", <<1>>), Op("raw", <<3>>), Op("ref", <<1>>), Op("rep", <<0>>), Fire("pushf", <<>>)}
AElem == {Op("getc", <<0>>), Op("rep", <<0>>), Op("set", <<0>>), Op("add", <<0, 1000>>), Fire("upd", <<0>>), Fire("set", <<0>>), Op("eqt", <<0, 1>>), Op("getm", <<0>>)}
ASwap == {Op("swap", <<0, 1>>), Op("swap", <<1, 0>>), Op("swap", <<0, 2>>), Op("add", <<0, 1000>>), Op("rep", <<1>>), Op("getc", <<0>>), Op("getc", <<1>>)}
ASwapOnly == {Op("swap", <<0, 1>>), Op("swap", <<1, 2>>), Op("swap", <<0, 2>>), Op("swap", <<2, 2>>), Op("swap", <<0, 3>>), Op("itc", <<>>)}
ALimit == {Op("push", <<>>), Op("ext", <<2>>), Op("extf", <<2>>), Op("cap", <<>>), Op("len", <<>>), Op("getc", <<1>>), Op("itc", <<>>), Op("pushr", <<>>)}
AIter == {Op("itc", <<>>), Op("idxof", <<2>>), Op("fill", <<>>), Op("push", <<>>), Op("rep", <<1>>), Op("swap", <<0, 1>>), Op("eqe", <<1, 0>>), Op("eqsl", <<1, 2>>)}
Z == {0}
Sl(k, f, a, b) == OpT(Z, "slice", 0, <<k, f, a, b>>)
ASeq == {OpT(Z, "push", 0, <<>>), OpT(Z, "ext", 0, <<2>>), OpT(Z, "rep", 0, <<1>>), Sl(1, 0, 1, 3), Sl(2, 4, 0, 0), OpT(Z, "itc", 1, <<>>), OpT(Z, "fill", 1, <<>>), OpT(Z, "swap", 1, <<0, 1>>),
         OpT(Z, "clear", 0, <<>>), [OpT(Z, "clear", 0, <<>>) EXCEPT !.p = 0], OpT(Z, "live", 0, <<>>), OpT(Z, "tovec", 0, <<>>), OpT(Z, "rt", 0, <<>>), OpT(Z, "resv", 0, <<9>>), OpT(Z, "eqr", 1, <<2>>)}
\* windows: every range on the vector, then a window of the window, and everything else on it
AWin == {OpT(Z, "slice", 0, <<1, f, a, b>>) : f \in 0..7, a \in {0, 1, 3, -1}, b \in {0, 2, 4, -1}}
        \cup {OpT(Z, "slice", 1, <<2, f, a, b>>) : f \in {0, 1, 3, 6}, a \in {0, 1, -1}, b \in {1, 2, -1}}
        \cup UNION {{OpT(Z, "spat", s, <<2, 3, m>>) : m \in {0, 1, 2, 5, -1}} \cup {OpT(Z, "spf", s, <<2>>), OpT(Z, "spl", s, <<2>>), OpT(Z, "asl", s, <<2>>)}
                    \cup {OpT(Z, "chk", s, <<q>>) : q \in {0, 1, 2, 3, 7}} \cup {OpT(Z, o, s, <<>>) : o \in {"itc", "red", "filt", "len", "isempty", "cvec"}}
                    \cup {OpT(Z, o, s, <<x>>) : o \in {"idxof", "cont", "getc", "idx", "gcl"}, x \in {0, 1, 2, 3, 9}} : s \in {0, 1, 2}}
AEq == {Sl(1, 0, 0, 2), Sl(1, 0, 2, 4), Sl(2, 0, 2, 4), Sl(2, 0, 0, 1), Sl(2, 0, 1, 3), OpT(Z, "fill", 0, <<>>), OpT(Z, "fill", 1, <<>>), OpT(Z, "eqr", 0, <<1>>), OpT(Z, "eqr", 1, <<2>>), OpT(Z, "eqr", 2, <<1>>),
        OpT(Z, "eqe", 0, <<0, 1>>), OpT(Z, "eqe", 0, <<1, 5>>), OpT(Z, "eqsl", 1, <<1, 2>>), OpT(Z, "eqsl", 1, <<1>>), OpT(Z, "swap", 0, <<0, 2>>)}
APanic == {Fire("set", <<0>>), Fire("updd", <<0>>), [Fire("filld", <<>>) EXCEPT !.p = 1], Fire("pushf", <<>>), Fire("exti", <<2>>), Fire("extf", <<2>>), Fire("upd", <<0>>), Fire("getc", <<0>>), Op("extlie", <<2, 1>>), Op("extfl", <<2, 1>>), Op("push", <<>>), Op("len", <<>>), Op("getc", <<1>>), Fire("itc", <<>>)}
AGrow3 == {Op("push", <<>>), Op("extf", <<2>>), Fire("pushf", <<>>), Op("len", <<>>), Op("getc", <<1>>)}
AWinS == {OpT(Z, "slice", 0, <<1, f, a, b>>) : f \in {0, 1, 3, 6}, a \in {0, 1}, b \in {2, -1}} \cup {OpT(Z, "slice", 1, <<2, 0, 1, 3>>), OpT(Z, "slice", 1, <<2, 5, 0, 1>>)}
         \cup UNION {{OpT(Z, "spat", s, <<2, 3, 1>>), OpT(Z, "spf", s, <<2>>), OpT(Z, "spl", s, <<2>>), OpT(Z, "chk", s, <<2>>), OpT(Z, "itc", s, <<>>), OpT(Z, "red", s, <<>>), OpT(Z, "filt", s, <<>>),
                      OpT(Z, "idxof", s, <<2>>), OpT(Z, "cont", s, <<3>>), OpT(Z, "getc", s, <<1>>), OpT(Z, "idx", s, <<2>>)} : s \in {0, 1, 2}}
(* mutants: replace a definition of AbsVec *)
BadLenHi(s) == IF IsSlice(s) THEN WLen(s) ELSE rsv
BadLenLo(s, lo) == IF IsSlice(s) THEN WLen(s) ELSE 0
BadMayIn(s, lo, i) == IF IsSlice(s) THEN i < WLen(s) ELSE i < Len(cells) /\ cells[i + 1] # 0
BadMayOut(s, lo, i) == IF IsSlice(s) THEN i >= WLen(s) ELSE i >= lo - 1
BadPut(c, pos, v) == IF pos < Len(c) THEN [c EXCEPT ![1] = v] ELSE c \o Zeros(pos - Len(c)) \o <<v>>
BadSubRange(form, a0, b0, n) == LET e == Min2(Ix(b0), n) a == Min2(Ix(a0), n) IN IF e > a THEN <<a, e - a>> ELSE <<0, 0>>
BadDropOps == {"updd"}
BadWin(s, w) == w
BadCeilDiv(a, b) == a \div b + 1
BadSame(x, y) == x <= y
BadContig(c, n) == Len(c)
BadFired(t) == FALSE
=============================================================================
