-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* Conformance of recorded executions: the trace is a sequence of events,  *)
(* one per public call that the driver made on the real library, with its  *)
(* arguments and its result. Post(e) is the specification's relation       *)
(* between the two. The events are dealt to Chains independent behaviours  *)
(* so that TLC's workers validate them in parallel; every behaviour steps  *)
(* through its events in order, and a rejected event is reported with its  *)
(* index. The run is accepted when every event was consumed (Complete) and *)
(* none was rejected.                                                      *)
(***************************************************************************)
EXTENDS Rat, Try, Integers, Sequences, TLC
CONSTANTS TraceFile, Chains, Post(_)
VARIABLES ch, pos, bad

Trace == RLoad(TraceFile)
Idx(c, p) == (p - 1) * Chains + c

Init == /\ ch \in 1..Chains
        /\ pos = 0
        /\ bad = 0


Next == LET i == Idx(ch, pos + 1) IN
        /\ i <= Len(Trace)
        /\ pos' = pos + 1
        /\ ch' = ch
        /\ IF RTry(Post(Trace[i])) THEN bad' = bad
           ELSE PrintT(<<"REJECTED", i>>) /\ bad' = bad + 1

Complete == TLCGet("stats").generated = Len(Trace) + Chains
=============================================================================
