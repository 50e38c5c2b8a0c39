---------------------------- MODULE PythonTrace ----------------------------
(* Follows executions recorded through the Python module.  Whatever the form *)
(* an argument was handed over in, the outcome must be one the specification *)
(* of the library allows and the one the library itself gave for the same    *)
(* data (nat), arrays must come back as arrays of the documented type and    *)
(* number of dimensions, and what was handed over must be as it was.         *)
EXTENDS Gridpp, TLC
CONSTANT TraceFile
VARIABLES t, l, st
vars == <<t, l, st>>
Traces == ReadTraces(TraceFile)

Init == /\ t \in 1..Len(Traces)
        /\ l = 1
        /\ st = InitState

DTypes == {"float32", "int32"}
SameAsNative(e) == /\ e.r = e.nat.r
                   /\ IsOk(e) => RClose(e.out, e.nat.out)
Through(e) == /\ IsOk(e) \/ IsErr(e)
              /\ e.kept
              /\ \A i \in DOMAIN e.dtypes : e.dtypes[i] \in DTypes
              /\ SameAsNative(e)

Next == LET e == Traces[t].ev[l] IN
        /\ l <= Len(Traces[t].ev)
        /\ IF Total(Through(e) /\ Allowed(st, e)) THEN TRUE ELSE PrintT(<<"REJECT", t, l, e.op>>)
        /\ st' = After(st, e)
        /\ l' = l + 1
        /\ UNCHANGED t
=============================================================================
