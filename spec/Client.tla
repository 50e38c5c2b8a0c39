------------------------------- MODULE Client -------------------------------
(* The parts of the command-line program as a state machine.  An operation   *)
(* either answers or gives up with an error; after an error nothing more is  *)
(* said about the session, which the driver ends there.                      *)
EXTENDS ClientOptions, ClientSetup, ClientNetcdf, ClientParams, ClientDown, ClientSpatial, ClientPlan

CInitState == [opts |-> <<>>, fs |-> <<>>, fl |-> <<>>, ps |-> <<>>, src |-> <<>>, disk |-> <<>>, pl |-> NoPlan]

MakeOps == {"mk_nc", "w_text"}
PartAllowed(st, e) ==
  CASE e.op \in OptionOps -> OptionAllowed(st, e)
    [] e.op \in UtilOps -> UtilOk(e)
    [] e.op \in SetupOps -> SetupOk(st.fs, e)
    [] e.op \in StoreOps -> StoreAllowed(st.fl, e)
    [] e.op \in ParamOps -> ParamAllowed(st.ps, st.src, e)
    [] e.op = "d_run" -> DRunOk(st.fl, e)
    [] e.op = "c_run" -> CRunOk(st.fl, st.ps, e)
    [] e.op \in DiskOps -> DiskAllowed(st.fl, st.disk, e)
    [] e.op \in PlanOps -> PlanAllowed(st.pl, st.disk, e)
    [] e.op \in MakeOps -> IsOk(e)
    [] OTHER -> FALSE
CAllowed(st, e) == InPlan(st.pl, st.fl, e) /\ PartAllowed(st, e)
PartAfter(st, e) == IF e.r # "ok" THEN st
                 ELSE IF e.op \in OptionOps THEN OptionAfter(st, e)
                 ELSE IF e.op = "mk_nc" THEN [st EXCEPT !.fs = With(st.fs, e.in.path, NcEntry(e.in)), !.src = SrcAfter(st.ps, st.src, e), !.disk = With(@, e.in.path, NcImage(e.in))]
                 ELSE IF e.op \in DiskOps THEN LET d == DiskAfter(st.fl, st.disk, e) IN [st EXCEPT !.fl = d.fl, !.disk = d.disk]
                 ELSE IF e.op = "w_text" /\ "rows" \in DOMAIN e.in THEN [st EXCEPT !.disk = With(@, e.in.path, [k |-> "rows", text |-> FALSE, rows |-> e.in.rows])]
                 ELSE IF e.op = "w_text" THEN [st EXCEPT !.fs = With(st.fs, e.in.path, [k |-> "text"]), !.src = SrcAfter(st.ps, st.src, e)]
                 ELSE IF e.op \in ParamOps THEN [st EXCEPT !.ps = ParamAfter(st.ps, st.src, e), !.src = SrcAfter(st.ps, st.src, e)]
                 ELSE IF e.op = "d_run" THEN [st EXCEPT !.fl = DRunAfter(st.fl, e)]
                 ELSE IF e.op = "c_run" THEN [st EXCEPT !.fl = CRunAfter(st.fl, e)]
                 ELSE IF e.op \in StoreOps THEN [st EXCEPT !.fl = StoreAfter(st.fl, e)]
                 ELSE IF e.op \in PlanOps THEN [st EXCEPT !.pl = PlanAfter(st.fs, st.pl, e)]
                 ELSE st
CAfter(st, e) == LET n == PartAfter(st, e) IN IF st.pl.on THEN [n EXCEPT !.pl = Taken(@, e)] ELSE n
=============================================================================
