-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Accepts or rejects histories of calls and returns recorded from the     *)
(* real code.  A history is accepted when the silent steps of AbsVec can   *)
(* be placed between its events.  Many histories are checked in one run;   *)
(* each starts from its own initial state.  A fault event (memory misuse,  *)
(* data race, deadlock found by the explorer; encoded 0) has no action.    *)
(* Silent steps are taken only when the next event is a return: postponing *)
(* them over call events only weakens the lower bounds the calls record.   *)
(***************************************************************************)
EXTENDS AbsVec, Json, IOUtils, TLCExt

H == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES h, l
tvars == <<cells, cp, rsv, maxc, capL, reg, th, h, l>>
Accepted == 1000000
Reg(i) == 10 + i
ASSUME \A i \in 1..Len(H) : TLCSet(Reg(i), 0)

TraceInit == \E i \in 1..Len(H) : h = i /\ l = 1 /\ Init0(H[i].cfg.maxc)
Ev == H[h].ev
TCalls == H[h].calls
Note(n) == IF TLCGet(Reg(h)) < n THEN TLCSet(Reg(h), n) ELSE TRUE

TraceNext ==
  /\ TLCGet(Reg(h)) # Accepted
  /\ l <= Len(Ev)
  /\ h' = h
  /\ LET e == Ev[l] IN
     IF e > 0
     THEN LET c == TCalls[e] IN
          Call(c.t, [o |-> c.o, s |-> c.s, p |-> c.p, a |-> c.a, a0 |-> H[h].cfg.maxc, c |-> e]) /\ l' = l + 1 /\ Note(l')
     ELSE IF e < 0
     THEN LET t == TCalls[-e].t IN
          IF th[t].st = "done" THEN Ret(t) /\ l' = l + 1 /\ Note(IF l' > Len(Ev) THEN Accepted ELSE l')
          ELSE /\ l' = l
               /\ \E u \in Threads : th[u].st = "run" /\ LET c == TCalls[th[u].c] IN Step(u, [k |-> c.k, r |-> c.r])
     ELSE FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars

TypeOK == Len(cells) < 60 => WellFormed /\ OwnedOnce
\* one line per rejected history: number, events matched
Report == \A i \in 1..Len(H) : TLCGet(Reg(i)) = Accepted \/ PrintT(<<"REJECTED", i, TLCGet(Reg(i))>>)
=============================================================================
