---------------------------- MODULE GrowthProof ----------------------------
(* Growth's invariants hold for every set of threads, maximum and sizes. *)
EXTENDS Growth, TLAPS

USE DEF Rest, PC, Waits, Owns, Lens, Prefix, Covered

LEMMA Start == Init => Inv
  BY Params, SMT DEF Init, Inv, Zero, TypeOK, Fits, Within, Own, Apart, Fresh, Turn, Enough, In,
     AllCovered, WaitCovered, LenW, LenPrefix, LenUntil, LenDone

LEMMA One == Inv => OneGrower
  BY SMT DEF Inv, OneGrower, TypeOK, Turn, Apart, Own

LEMMA Claimed == Inv => Claims
<1> SUFFICES ASSUME Inv PROVE Claims
  OBVIOUS
<1> USE DEF Inv
<1>1. Apart /\ Fits /\ Within /\ LenW
  OBVIOUS
<1>2. WriteFresh /\ WriteInside
  BY SMT DEF WriteFresh, WriteInside, TypeOK, Own, Fresh, In
<1>3. OneGrower
  BY One
<1>4. Moves
  <2> SUFFICES ASSUME NEW t \in T, pc[t] = "permit"
               PROVE  \E v \in T : pc[v] \in {"grow", "store"} \/ (pc[v] = "permit" /\ b[v] <= cap)
    BY DEF Moves
  <2>1. CASE b[t] <= cap
    BY <2>1
  <2>2. CASE cap < b[t]
    <3>0. cap \in cap..b[t] - 1
      BY <2>2, SMT DEF TypeOK
    <3>1. PICK v \in T : pc[v] \in Waits /\ b[v] <= cap
      BY <3>0, SMT DEF TypeOK, WaitCovered
    <3> QED BY <3>1
  <2> QED BY <2>1, <2>2, SMT DEF TypeOK
<1>5. LenOk /\ LenInside
  BY SMT DEF LenOk, LenInside, TypeOK, LenPrefix, LenUntil, LenDone
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF Claims

LEMMA Stutter == Inv /\ UNCHANGED gvars => Inv'
  BY SMT DEF gvars, Inv, TypeOK, Fits, Within, Own, Apart, Fresh, Turn, Enough, In,
     AllCovered, WaitCovered, LenW, LenPrefix, LenUntil, LenDone

LEMMA Step == Inv /\ Next => Inv'
<1> SUFFICES ASSUME Inv, NEW t \in T, Act(t) PROVE Inv'
  BY DEF Next
<1> USE Params DEF Inv
<1>1. ASSUME NEW j \in Sizes, Reserve(t, j) PROVE Inv'
  <2> USE <1>1 DEF Reserve
  <2>1. TypeOK' BY SMT DEF TypeOK
  <2>2. (Fits /\ Within /\ LenW)' BY SMT DEF TypeOK, Fits, Within, LenW
  <2>3. (Own /\ Apart)' BY SMT DEF TypeOK, Own, Apart
  <2>4. Fresh' BY SMT DEF TypeOK, Fresh, Fits
  <2>5. (Turn /\ Enough /\ In)' BY SMT DEF TypeOK, Turn, Enough, In
  <2>6. AllCovered' BY SMT DEF TypeOK, AllCovered
  <2>7. WaitCovered' BY SMT DEF TypeOK, AllCovered, WaitCovered
  <2>8. (LenPrefix /\ LenUntil /\ LenDone)' BY SMT DEF TypeOK, LenPrefix, LenUntil, LenDone
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8
<1>2. ASSUME Enter(t) PROVE Inv'
  <2> USE <1>2 DEF Enter
  <2>1. TypeOK' BY SMT DEF TypeOK
  <2>2. (Fits /\ Within /\ LenW)' BY SMT DEF TypeOK, Fits, Within, LenW
  <2>3. (Own /\ Apart)' BY SMT DEF TypeOK, Own, Apart
  <2>4. Fresh' BY SMT DEF TypeOK, Fresh
  <2>5. (Turn /\ Enough /\ In)' BY SMT DEF TypeOK, Turn, Enough, In
  <2>6. AllCovered' BY SMT DEF TypeOK, AllCovered
  <2>7. WaitCovered' BY SMT DEF TypeOK, WaitCovered
  <2>8. (LenPrefix /\ LenUntil /\ LenDone)' BY SMT DEF TypeOK, LenPrefix, LenUntil, LenDone
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8
<1>3. ASSUME Elect(t) PROVE Inv'
  <2> USE <1>3 DEF Elect
  <2>1. TypeOK' BY SMT DEF TypeOK
  <2>2. (Fits /\ Within /\ LenW)' BY SMT DEF TypeOK, Fits, Within, LenW
  <2>3. (Own /\ Apart)' BY SMT DEF TypeOK, Own, Apart
  <2>4. Fresh' BY SMT DEF TypeOK, Fresh
  <2>5. (Turn /\ Enough /\ In)' BY SMT DEF TypeOK, Turn, Enough, In
  <2>6. AllCovered' BY SMT DEF TypeOK, AllCovered
  <2>7. WaitCovered' BY SMT DEF TypeOK, WaitCovered
  <2>8. (LenPrefix /\ LenUntil /\ LenDone)' BY SMT DEF TypeOK, LenPrefix, LenUntil, LenDone
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8
<1>4. ASSUME NEW c \in Sizes, Grow(t, c) PROVE Inv'
  <2> USE <1>4 DEF Grow
  <2>0. \A v \in T : pc[v] \in {"grow", "store"} => v = t
    BY One DEF OneGrower
  <2>1. TypeOK' BY SMT DEF TypeOK
  <2>2. (Fits /\ Within /\ LenW)' BY SMT DEF TypeOK, Fits, Within, LenW, Turn
  <2>3. (Own /\ Apart)' BY SMT DEF TypeOK, Own, Apart
  <2>4. Fresh' BY SMT DEF TypeOK, Fresh
  <2>5. (Turn /\ Enough /\ In)' BY <2>0, SMT DEF TypeOK, Turn, Enough, In
  <2>6. AllCovered' BY SMT DEF TypeOK, AllCovered
  <2>7. WaitCovered' BY SMT DEF TypeOK, WaitCovered
  <2>8. (LenPrefix /\ LenUntil /\ LenDone)' BY SMT DEF TypeOK, LenPrefix, LenUntil, LenDone
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8
<1>5. ASSUME Store(t) PROVE Inv'
  <2> USE <1>5 DEF Store
  <2>0. \A v \in T : pc[v] \in {"grow", "store"} => v = t
    BY One DEF OneGrower
  <2>1. TypeOK' BY SMT DEF TypeOK
  <2>2. (Fits /\ Within /\ LenW)' BY SMT DEF TypeOK, Fits, Within, LenW
  <2>3. (Own /\ Apart)' BY SMT DEF TypeOK, Own, Apart
  <2>4. Fresh' BY SMT DEF TypeOK, Fresh
  <2>5. (Turn /\ Enough /\ In)' BY <2>0, SMT DEF TypeOK, Turn, Enough, In, Fits
  <2>6. AllCovered'
    <3> SUFFICES ASSUME r <= Limit, NEW q \in alloc..r - 1 PROVE Covered(q)'
      BY DEF AllCovered
    <3>0. q \in cap..r - 1
      BY SMT DEF TypeOK, Fits
    <3>1. PICK v \in T : pc[v] \in Waits /\ b[v] <= q /\ q < b[v] + n[v]
      BY <3>0 DEF AllCovered
    <3>2. v # t
      BY <3>1, SMT DEF TypeOK, Enough
    <3> QED BY <3>1, <3>2, SMT DEF TypeOK
  <2>7. WaitCovered'
    <3> SUFFICES ASSUME NEW x \in T, pc'[x] = "permit", NEW q \in alloc..b[x] - 1 PROVE Covered(q)'
      BY DEF WaitCovered
    <3>0. pc[x] = "permit" /\ q \in cap..b[x] - 1
      BY SMT DEF TypeOK, Fits
    <3>1. PICK v \in T : pc[v] \in Waits /\ b[v] <= q /\ q < b[v] + n[v]
      BY <3>0 DEF WaitCovered
    <3>2. v # t
      BY <3>1, SMT DEF TypeOK, Enough
    <3> QED BY <3>1, <3>2, SMT DEF TypeOK
  <2>8. (LenPrefix /\ LenUntil /\ LenDone)' BY SMT DEF TypeOK, LenPrefix, LenUntil, LenDone, Fits
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8
<1>6. ASSUME Publish(t) PROVE Inv'
  <2> USE <1>6 DEF Publish
  <2>1. TypeOK' BY SMT DEF TypeOK
  <2>2. (Fits /\ Within /\ LenW)' BY SMT DEF TypeOK, Fits, Within, LenW, Own, In
  <2>3. (Own /\ Apart)' BY SMT DEF TypeOK, Own, Apart
  <2>4. Fresh'
    <3> SUFFICES ASSUME NEW v \in T, pc'[v] \in Owns, NEW q \in b'[v] + k'[v]..b'[v] + n'[v] - 1 PROVE q \notin w'
      BY DEF Fresh
    <3>1. pc[v] \in Owns /\ q \in b[v] + k[v]..b[v] + n[v] - 1
      BY SMT DEF TypeOK
    <3>2. q # b[t] + k[t]
      <4>1. CASE v = t
        BY <4>1, SMT DEF TypeOK
      <4>2. CASE v # t
        <5>1. b[t] + n[t] <= b[v] \/ b[v] + n[v] <= b[t]
          BY <3>1, <4>2 DEF Apart
        <5>2. k[t] < n[t]
          BY DEF Own
        <5> QED BY <5>1, <5>2, <3>1, SMT DEF TypeOK
      <4> QED BY <4>1, <4>2
    <3> QED BY <3>1, <3>2 DEF Fresh
  <2>5. (Turn /\ Enough /\ In)' BY SMT DEF TypeOK, Turn, Enough, In
  <2>6. AllCovered' BY SMT DEF TypeOK, AllCovered
  <2>7. WaitCovered' BY SMT DEF TypeOK, WaitCovered
  <2>8. (LenPrefix /\ LenUntil /\ LenDone)' BY SMT DEF TypeOK, LenPrefix, LenUntil, LenDone
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8
<1>7. ASSUME Abort(t) PROVE Inv'
  <2> USE <1>7 DEF Abort
  <2>1. TypeOK' BY SMT DEF TypeOK
  <2>2. (Fits /\ Within /\ LenW)' BY SMT DEF TypeOK, Fits, Within, LenW
  <2>3. (Own /\ Apart)' BY SMT DEF TypeOK, Own, Apart
  <2>4. Fresh' BY SMT DEF TypeOK, Fresh
  <2>5. (Turn /\ Enough /\ In)' BY SMT DEF TypeOK, Turn, Enough, In
  <2>6. AllCovered' BY SMT DEF TypeOK, AllCovered
  <2>7. WaitCovered' BY SMT DEF TypeOK, WaitCovered
  <2>8. (LenPrefix /\ LenUntil /\ LenDone)' BY SMT DEF TypeOK, LenPrefix, LenUntil, LenDone
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8
<1>8. ASSUME (\E j \in Sizes : LenCall(t, j)) \/ LenCached(t) \/ LenCap(t) \/ LenReserved(t) \/ LenWalk(t) \/ LenStop(t) \/ LenReturn(t) PROVE Inv'
  <2>0. UNCHANGED <<r, cap, alloc, w, b, n, k>>
        /\ TypeOK'
        /\ \A v \in T : pc'[v] = pc[v] \/ (pc'[v] \notin Owns /\ pc[v] \notin Owns)
    BY <1>8, SMT DEF LenCall, LenCached, LenCap, LenReserved, LenWalk, LenStop, LenReturn, TypeOK
  <2>1. (Fits /\ Within)' BY <2>0, SMT DEF TypeOK, Fits, Within
  <2>2. LenW' BY <1>8, SMT DEF LenCall, LenCached, LenCap, LenReserved, LenWalk, LenStop, LenReturn, TypeOK, LenW, LenPrefix
  <2>3. (Own /\ Apart)' BY <2>0, SMT DEF TypeOK, Own, Apart
  <2>4. Fresh' BY <2>0, SMT DEF TypeOK, Fresh
  <2>5. (Turn /\ Enough /\ In)' BY <2>0, SMT DEF TypeOK, Turn, Enough, In
  <2>6. AllCovered' BY <2>0, SMT DEF TypeOK, AllCovered
  <2>7. WaitCovered' BY <2>0, SMT DEF TypeOK, WaitCovered
  <2>8. LenPrefix'
    BY <1>8, SMT DEF LenCall, LenCached, LenCap, LenReserved, LenWalk, LenStop, LenReturn, TypeOK, LenPrefix, LenW
  <2>9. LenUntil'
    <3>1. \A j \in Nat : Prefix(j) => j <= cap /\ j <= r
      <4> SUFFICES ASSUME NEW j \in Nat, Prefix(j), j > 0 PROVE j <= cap /\ j <= r
        BY SMT DEF TypeOK
      <4>1. j - 1 \in w BY SMT
      <4> QED BY <4>1, SMT DEF TypeOK, Fits
    <3> QED BY <1>8, <3>1, SMT DEF LenCall, LenCached, LenCap, LenReserved, LenWalk, LenStop, LenReturn, TypeOK, LenPrefix, LenUntil
  <2>10. LenDone'
    BY <1>8, SMT DEF LenCall, LenCached, LenCap, LenReserved, LenWalk, LenStop, LenReturn, TypeOK, LenPrefix, LenUntil, LenDone
  <2> QED BY <2>0, <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8, <2>9, <2>10
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF Act

THEOREM Safe == Spec => []Claims
  BY Start, Step, Stutter, Claimed, PTL DEF Spec
=============================================================================
