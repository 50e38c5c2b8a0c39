---------------------------- MODULE ClientTrace ----------------------------
(* Follows recorded executions of the command-line program's parts.          *)
EXTENDS Client
CONSTANT TraceFile
VARIABLES t, l, st
vars == <<t, l, st>>
Traces == ReadTraces(TraceFile)

Init == /\ t \in 1..Len(Traces)
        /\ l = 1
        /\ st = CInitState

Next == /\ l <= Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l] IN
             /\ IF Total(CAllowed(st, e)) THEN TRUE ELSE PrintT(<<"REJECT", t, l, e.op>>)
             /\ st' = CAfter(st, e)
        /\ l' = l + 1
        /\ UNCHANGED t
=============================================================================
