---------------------------- MODULE GridppTrace ----------------------------
(* Follows recorded executions of the real library.  A trace is one session:*)
(* the operations in their order, with arguments and outcomes.  Every event  *)
(* must be one the specification allows in the state reached; one that is    *)
(* not is reported, and the session goes on in the state the specification   *)
(* prescribes.                                                               *)
EXTENDS Gridpp, TLC
CONSTANT TraceFile
VARIABLES t, l, st
vars == <<t, l, st>>
Traces == ReadTraces(TraceFile)

Init == /\ t \in 1..Len(Traces)
        /\ l = 1
        /\ st = InitState

Next == /\ l <= Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l] IN
             /\ IF Total(Allowed(st, e)) THEN TRUE ELSE PrintT(<<"REJECT", t, l, e.op>>)
             /\ st' = After(st, e)
        /\ l' = l + 1
        /\ UNCHANGED t
=============================================================================
