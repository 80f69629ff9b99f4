----------------------------- MODULE LocksProof -----------------------------
(* The claims of Locks hold for every set of threads and number of elements. *)
EXTENDS Locks, TLAPS, NaturalsInduction

USE LParams DEF Pos, Any, May, Free

LEMMA LStart == LInit => LInv
  BY SMT DEF LInit, LInv, LType, Alone, Upwards, Exists

LEMMA LStep == LInv /\ LNext => LInv'
<1> SUFFICES ASSUME LInv, NEW t \in T, LAct(t) PROVE LInv'
  BY DEF LNext
<1> USE DEF LInv
<1>1. ASSUME NEW p \in Pos, Take(t, p) PROVE LInv'
  <2> USE <1>1 DEF Take, Ask, Change
  <2>1. LType' BY SMT DEF LType
  <2>2. Alone' BY SMT DEF LType, Alone
  <2>3. Upwards' BY SMT DEF LType, Upwards
  <2>4. Exists' BY SMT DEF LType, Exists
  <2> QED BY <2>1, <2>2, <2>3, <2>4
<1>2. ASSUME Release(t) PROVE LInv'
  <2> USE <1>2 DEF Release, Ask, Change
  <2>1. LType' BY SMT DEF LType
  <2>2. Alone' BY SMT DEF LType, Alone
  <2>3. Upwards' BY SMT DEF LType, Upwards
  <2>4. Exists' BY SMT DEF LType, Exists
  <2> QED BY <2>1, <2>2, <2>3, <2>4
<1> QED BY <1>1, <1>2 DEF LAct

LEMMA LStutter == LInv /\ UNCHANGED lvars => LInv'
  BY SMT DEF lvars, LInv, LType, Alone, Upwards, Exists

LEMMA LKept == LInv => Kept
<1> SUFFICES ASSUME LInv, NEW t \in T, LAct(t), NEW x \in T, x # t, NEW p \in h[x] PROVE v'[p] = v[p]
  BY DEF Kept
<1> USE DEF LInv
<1>1. p \in Pos /\ v[p] # Unset /\ p \notin h[t] /\ (\A y \in Pos : Free(y) => y # p)
  BY SMT DEF LType, Alone, Exists
<1>2. ASSUME NEW y \in Pos, Take(t, y) PROVE v'[p] = v[p]
  BY <1>1, <1>2, SMT DEF Take, Change, LType
<1>3. ASSUME Release(t) PROVE v'[p] = v[p]
  BY <1>1, <1>3, SMT DEF Release, Change, LType
<1> QED BY <1>2, <1>3 DEF LAct

LEMMA LGoes == LInv => Goes
<1> SUFFICES ASSUME LInv, NEW t \in T, q[t] # -1,
                    \A x \in T : ~((q[x] # -1 /\ Free(q[x])) \/ (q[x] = -1 /\ h[x] # {}))
             PROVE  FALSE
  BY DEF Goes
<1> USE DEF LInv
<1> DEFINE P(i) == \E x \in T : q[x] # -1 /\ q[x] >= i
<1>1. P(0)
  BY SMT DEF LType
<1>2. \A i \in Nat : P(i) => P(i + 1)
  <2> SUFFICES ASSUME NEW i \in Nat, NEW x \in T, q[x] # -1, q[x] >= i PROVE P(i + 1)
    OBVIOUS
  <2>1. PICK y \in T : q[x] \in h[y]
    BY SMT
  <2>2. q[y] # -1
    BY <2>1
  <2>3. q[x] < q[y]
    BY <2>1, <2>2 DEF Upwards
  <2> QED BY <2>2, <2>3, SMT DEF LType
<1>3. \A i \in Nat : P(i)
  <2> HIDE DEF P
  <2> QED BY <1>1, <1>2, NatInduction, Isa
<1>4. P(Limit)
  BY <1>3
<1> QED BY <1>4, SMT DEF LType

THEOREM LSafe == LSpec => []LClaims
<1>1. LInv => LClaims
  BY LGoes DEF LInv, LClaims
<1> QED BY <1>1, LStart, LStep, LStutter, PTL DEF LSpec
=============================================================================
