------------------------------- MODULE ConfH --------------------------------
(***************************************************************************)
(* Conformance of recorded histories. Trace[i] is a sequence of events,    *)
(* one per call on the same object. The abstract state st of the object is *)
(* the specification's: StInit before the first event, and StNext(st, e)   *)
(* after an event e whose recorded result satisfies Post(st, e).           *)
(***************************************************************************)
EXTENDS Rat, Try, Integers, Sequences, TLC
CONSTANTS TraceFile, Chains, Post(_, _), StInit, StNext(_, _)
VARIABLES ch, pos, k, st, bad

Trace == RLoad(TraceFile)
Idx(c, p) == (p - 1) * Chains + c
vars == <<ch, pos, k, st, bad>>

Init == /\ ch \in 1..Chains
        /\ pos = 1 /\ k = 0 /\ bad = 0
        /\ st = StInit

StepCall ==     \* the next call of the current history
  LET i == Idx(ch, pos) IN
  /\ i <= Len(Trace)
  /\ k < Len(Trace[i])
  /\ LET e == Trace[i][k + 1] IN
     /\ IF RTry(Post(st, e)) THEN bad' = bad
        ELSE PrintT(<<"REJECTED", i, k + 1>>) /\ bad' = bad + 1
     /\ st' = StNext(st, e)
  /\ k' = k + 1
  /\ UNCHANGED <<ch, pos>>

NextHistory ==
  LET i == Idx(ch, pos) IN
  /\ i <= Len(Trace)
  /\ k = Len(Trace[i])
  /\ pos' = pos + 1 /\ k' = 0 /\ st' = StInit
  /\ UNCHANGED <<ch, bad>>

Next == StepCall \/ NextHistory
Size == RToInt(RSum([i \in 1..Len(Trace) |-> RInt(Len(Trace[i]) + 1)]))
Complete == TLCGet("stats").generated = Size + Chains
=============================================================================
