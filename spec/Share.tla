-------------------------------- MODULE Share --------------------------------
(***************************************************************************)
(* When may a part of the vector be shared with or sent to another thread?  *)
(* Thread 1 makes the vector and a value in it, hands a part of it over to  *)
(* thread 2 (once), and both use the methods they can reach then.  The      *)
(* element type may be Send, Sync, both or neither:                         *)
(*   not Send - a value may be moved, changed or dropped only by the thread *)
(*              that made it                                                *)
(*   not Sync - no two threads may have a reference to the value at a time  *)
(*   neither  - nobody but its maker may even look at it                    *)
(* TLC computes which (part, way, Send, Sync) allow a misuse through safe   *)
(* methods or get_ref, the compiler is asked (probe/) which of them the     *)
(* crate grants, and both are compared: nothing that can be misused may be  *)
(* granted, and Send + Sync elements may always be shared and sent.         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json, IOUtils

\* what can be done through a reference to the part, what more by owning it, and whether the vector stays with thread 1
Kinds == {"vec", "slice", "element", "pinned", "iter", "slice_iter", "chunks", "slice_chunks", "map", "iter_ref", "iter_mut", "slice_iter_mut", "into_iter"}
Shared(k) == CASE k = "vec" -> {"map", "ref", "replace", "put"}
               [] k = "slice" -> {"map", "ref", "replace"}
               [] k \in {"element", "pinned"} -> {"map", "replace"}
               [] OTHER -> {}
Owned(k) == Shared(k) \cup
            CASE k \in {"vec", "element", "pinned", "into_iter"} -> {"drop"}
              [] k \in {"chunks", "slice_chunks"} -> {"map", "ref", "replace"}
              [] k \in {"iter", "slice_iter"} -> {"map", "replace"}
              [] k = "map" -> {"map"}
              [] k = "iter_ref" -> {"ref"}
              [] k \in {"iter_mut", "slice_iter_mut"} -> {"replace"}
              [] OTHER -> {}
Lends(k) == k \notin {"vec", "element", "pinned", "into_iter"}
All == {"map", "ref", "replace", "put", "drop"}

Rows == ndJsonDeserialize(IOEnv.GRANTED)          \* kind, st, how, snd, syn, granted
Only == IF "ROW" \in DOMAIN IOEnv THEN atoi(IOEnv.ROW) ELSE 0

VARIABLES kind, how, snd, syn, over, acc, slot, held, refs, bad
vars == <<kind, how, snd, syn, over, acc, slot, held, refs, bad>>
Th == {1, 2}

Init ==
  /\ kind \in Kinds /\ how \in {"share", "send"} /\ snd \in BOOLEAN /\ syn \in BOOLEAN
  /\ Only > 0 => LET r == Rows[Only] IN kind = r.kind /\ how = r.how /\ snd = (r.snd = 1) /\ syn = (r.syn = 1)
  /\ over = FALSE /\ acc = [t \in Th |-> IF t = 1 THEN All ELSE {}]
  /\ slot = 1                                     \* the maker of the stored value, 0: none
  /\ held = [t \in Th |-> 0] /\ refs = {} /\ bad = FALSE
HandOver ==
  /\ ~over /\ over' = TRUE
  /\ how = "send" => (1 \notin refs \/ Lends(kind))          \* what is borrowed cannot be moved
  /\ acc' = [acc EXCEPT ![2] = IF how = "share" THEN Shared(kind) ELSE Owned(kind),
                        ![1] = IF how = "share" THEN @ \ {"drop"} ELSE IF Lends(kind) THEN @ \ {"drop"} ELSE {}]
  /\ UNCHANGED <<kind, how, snd, syn, slot, held, refs, bad>>
Foreign(t) == slot # t
Look(t) == (Foreign(t) /\ ~snd /\ ~syn) \/ (refs \ {t} # {} /\ ~syn)
Use(t, m) ==
  /\ m \in acc[t]
  /\ CASE m = "map" -> slot # 0 /\ bad' = (bad \/ Look(t)) /\ UNCHANGED <<slot, held, refs>>
       [] m = "ref" -> slot # 0 /\ bad' = (bad \/ Look(t)) /\ refs' = refs \cup {t} /\ UNCHANGED <<slot, held>>
       \* who keeps a reference promises that nobody changes the value meanwhile
       [] m = "replace" -> slot # 0 /\ refs = {} /\ bad' = (bad \/ (Foreign(t) /\ ~snd)) /\ held' = [held EXCEPT ![t] = slot] /\ slot' = t /\ UNCHANGED refs
       [] m = "drop" -> slot # 0 /\ refs = {} /\ bad' = (bad \/ (Foreign(t) /\ ~snd)) /\ slot' = 0 /\ UNCHANGED <<held, refs>>
       [] m = "put" -> slot = 0 /\ slot' = t /\ UNCHANGED <<held, refs, bad>>
  /\ UNCHANGED <<kind, how, snd, syn, over, acc>>
Release(t) == t \in refs /\ refs' = refs \ {t} /\ UNCHANGED <<kind, how, snd, syn, over, acc, slot, held, bad>>
Next == HandOver \/ \E t \in Th : Release(t) \/ \E m \in All : Use(t, m)
Spec == Init /\ [][Next]_vars

NoMisuse == ~bad
ASSUME TLCSet(1, {})
Collect == bad => TLCSet(1, TLCGet(1) \cup {<<kind, how, snd, syn>>})
\* what the property says about the vector, its slices and its elements
Stated(k, w, s, y) == IF w = "send" /\ ~Lends(k) THEN s ELSE s /\ y
Report ==
  LET U == TLCGet(1)
      row(i) == LET r == Rows[i] IN <<r.kind, r.how, r.snd = 1, r.syn = 1>>
  IN /\ \A k \in {"vec", "slice", "element"}, w \in {"share", "send"}, s, y \in BOOLEAN : (<<k, w, s, y>> \in U) # Stated(k, w, s, y) \/ PrintT(<<"POLICY", k, w, s, y>>)
     /\ \A i \in 1..Len(Rows) :
          /\ (Rows[i].granted = 1 /\ row(i) \in U) => PrintT(<<"UNSOUND", i>>)
          /\ (Rows[i].granted = 0 /\ Rows[i].kind \in {"vec", "slice", "element"} /\ Rows[i].snd + Rows[i].syn = 2) => PrintT(<<"MISSING", i>>)
     /\ PrintT(<<"MISUSABLE", Cardinality(U)>>)
=============================================================================
