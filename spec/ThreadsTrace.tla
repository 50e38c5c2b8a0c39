---------------------------- MODULE ThreadsTrace ----------------------------
(* Follows recorded executions in which operations are repeated with other   *)
(* numbers of threads or in another order of execution.  Besides being       *)
(* allowed, an outcome must be the one the same operation had before, and no *)
(* two threads may have clashed over a piece of memory.                      *)
EXTENDS Gridpp, Races, TLC
CONSTANT TraceFile
VARIABLES t, l, st
vars == <<t, l, st>>
Traces == ReadTraces(TraceFile)

Init == /\ t \in 1..Len(Traces)
        /\ l = 1
        /\ st = InitState

\* a parallel loop the stand-in for the threads could not follow says nothing
Followed(e) == "acc" \in DOMAIN e => e.acc.watched
NoRace(e) == "acc" \in DOMAIN e => \A k \in DOMAIN e.acc.cells : RaceFreeCell(e.acc.cells[k])
Queries == {"get", "query", "get_box", "in_domain", "get_point", "corr", "corr_list"}
Builds(e) == e.op \in ObjOps \cup StructOps /\ e.op \notin Queries
Before(ev, k) == {j \in 1..(k - 1) : ev[j].op = ev[k].op /\ ev[j].in = ev[k].in /\ \A i \in j..k : ~Builds(ev[i])}
Agrees(ev, k) == \A j \in Before(ev, k) : ev[j].r = ev[k].r /\ (IsOk(ev[k]) => RClose(ev[j].out, ev[k].out))
Fine(s, ev, k) ==
  LET e == ev[k] IN
  \/ e.op = "threads"
  \/ ~Followed(e)
  \/ NoRace(e) /\ Agrees(ev, k) /\ Allowed(s, e)

Next == LET ev == Traces[t].ev  e == ev[l] IN
        /\ l <= Len(ev)
        /\ IF Total(Fine(st, ev, l)) THEN TRUE ELSE PrintT(<<"REJECT", t, l, e.op>>)
        /\ st' = After(st, e)
        /\ l' = l + 1
        /\ UNCHANGED t
=============================================================================
