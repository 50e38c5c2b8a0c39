------------------------------ MODULE ClientPlan ------------------------------
(* The program as a whole.  What a command line stands for is a list of      *)
(* steps - files are opened; for each pair of files the output takes over    *)
(* times, members and reference time, each variable is made, downscaled and  *)
(* goes through its calibrators in order; at the end what is to be written   *)
(* is written.  A session runs the program on files of its own, then takes   *)
(* these steps one by one on the same files: every step is judged by the     *)
(* specification of its part, the steps are those of the plan, and in the    *)
(* end the files must be the same.                                           *)
EXTENDS ClientNetcdf, ClientSetup, ClientDown

NoPlan == [on |-> FALSE, line |-> <<>>, kind |-> "", end |-> "", todo |-> <<>>, kept |-> <<>>]
DebugWord == Chars("--debug")
RECURSIVE WithoutDebug(_)
WithoutDebug(w) == IF Len(w) = 0 THEN <<>> ELSE IF w[1] = DebugWord THEN WithoutDebug(SubSeq(w, 3, Len(w))) ELSE <<w[1]>> \o WithoutDebug(Tail(w))
\* nothing is done but telling about the program
OnlyTells(w) == Len(w) < 2 \/ \E i \in 1..Len(w) : w[i] \in {Chars("--version"), Chars("--help")}
RECURSIVE JoinWords(_)
JoinWords(w) == IF Len(w) = 0 THEN "" ELSE IF Len(w) = 1 THEN Join(w[1]) ELSE Join(w[1]) \o " " \o JoinWords(Tail(w))
WriteKey == <<"w", "r", "i", "t", "e">>
ToBeWritten(b) == ~Has(b.opts, WriteKey) \/ Get(b.opts, WriteKey) # <<"0">>

\* ---- the steps ---------------------------------------------------------------------
RECURSIVE FlatSteps(_)
FlatSteps(s) == IF Len(s) = 0 THEN <<>> ELSE s[1] \o FlatSteps(Tail(s))
OpeningSteps(vd, ins, outs) ==
  FlatSteps([i \in 1..Len(ins) |->
    <<[op |-> "f_open", f |-> Join(outs[i]), opts |-> vd.p.oopts]>> \o (IF ins[i] = outs[i] THEN <<>> ELSE <<[op |-> "f_open", f |-> Join(ins[i]), opts |-> vd.p.iopts]>>)])
VarSteps(fs, vd, k, a, b) ==
  LET bl == vd.bs[k]  d == Down(bl)  c == Cals(bl)  iv == InVar(fs, vd.p, vd.al, vd.bs, k)  ov == OutVar(fs, vd.p, bl) IN
  <<[op |-> "f_init", f |-> b, v |-> Join(bl.name)],
    [op |-> "d_run", name |-> d.name, from |-> a, f |-> b, iv |-> iv.v, ov |-> ov, opts |-> d.opts]>>
  \o [i \in 1..Len(c) |-> [op |-> "c_run", name |-> c[i].name, f |-> b, v |-> Join(bl.name), opts |-> c[i].opts, p |-> IF Len(c[i].pars) = 0 THEN "" ELSE Join(c[i].pars[1].name)]]
PairSteps(fs, vd, ks, a, b, line) ==
  <<[op |-> "f_settimes", f |-> b, from |-> a], [op |-> "f_setens", f |-> b, from |-> a], [op |-> "f_setref", f |-> b, from |-> a]>>
  \o FlatSteps([i \in 1..Len(ks) |-> VarSteps(fs, vd, ks[i], a, b)])
  \o LET w == SelectSeq(ks, LAMBDA k : ToBeWritten(vd.bs[k])) IN
     <<[op |-> "f_write", f |-> b, msg |-> JoinWords(line), vars |-> [i \in 1..Len(w) |-> OutVar(fs, vd.p, vd.bs[w[i]])]]>>
PlanOf(fs, line) ==
  LET w == WithoutDebug(line) IN
  IF OnlyTells(line) THEN [NoPlan EXCEPT !.on = TRUE, !.line = line, !.kind = "tells"]
  ELSE IF line[Len(line)] = DebugWord THEN [NoPlan EXCEPT !.on = TRUE, !.line = line, !.kind = "err"]
  ELSE LET vd == Verdict(fs, w) IN
       IF vd.free THEN [NoPlan EXCEPT !.on = TRUE, !.line = line, !.kind = "any"]
       ELSE IF vd.err THEN [NoPlan EXCEPT !.on = TRUE, !.line = line, !.kind = "err"]
       ELSE LET ins == FileList(vd.p.inp)  outs == FileList(vd.p.outp)  ks == FirstOnes(vd.bs, 1) IN
            [NoPlan EXCEPT !.on = TRUE, !.line = line, !.kind = IF vd.maybe THEN "any" ELSE "runs",
             !.todo = OpeningSteps(vd, ins, outs) \o FlatSteps([i \in 1..Len(ins) |-> PairSteps(fs, vd, ks, Join(ins[i]), Join(outs[i]), line)])]

\* ---- a step taken ------------------------------------------------------------------
OptsFit(in, opts) == PairSet(PutWords(<<>>, in.ot)) = PairSet(opts)
NumFits(in, k, x) == IF k \in DOMAIN in THEN REq(in[k], x) ELSE CMissing(x)
StepFits(fl, s, e) ==
  LET in == e.in IN
  /\ e.op = s.op
  /\ CASE s.op = "f_open" -> in.f = s.f /\ in.path = s.f /\ OptsFit(in, s.opts)
       [] s.op = "f_settimes" -> in.f = s.f /\ LET x == fl[s.from].times IN Len(in.x) = Len(x) /\ \A i \in 1..Len(x) : CSame(in.x[i], x[i])
       [] s.op = "f_setens" -> in.f = s.f /\ in.n = fl[s.from].ne
       [] s.op = "f_setref" -> in.f = s.f /\ CSame(in.t, fl[s.from].ref)
       [] s.op = "f_init" -> in.f = s.f /\ in.v = s.v
       [] s.op = "d_run" -> in.name = s.name /\ in.in = s.from /\ in.out = s.f /\ VarName(in.iv) = Join(s.iv.name) /\ VarName(in.ov) = Join(s.ov.name)
                            /\ NumFits(in.ov, "min", s.ov.min) /\ NumFits(in.ov, "max", s.ov.max) /\ OptsFit(in, s.opts)
       [] s.op = "c_run" -> in.name = s.name /\ in.f = s.f /\ VarName(in.v) = s.v /\ OptsFit(in, s.opts) /\ Opt(in, "p", "") = s.p
       [] s.op = "f_write" -> in.f = s.f /\ in.msg = s.msg /\ Len(in.vars) = Len(s.vars)
                              /\ \A i \in 1..Len(in.vars) : in.vars[i].name = Join(s.vars[i].name) /\ Opt(in.vars[i], "units", "") = Join(s.vars[i].units) /\ Opt(in.vars[i], "std", "") = Join(s.vars[i].std)
       [] OTHER -> FALSE

\* ---- the same on disk ----------------------------------------------------------------
Alike(a, b) == (~IsFin(a) /\ ~IsFin(b)) \/ (IsFin(a) /\ IsFin(b) /\ REq(a, b))
AlikeDumps(a, b) ==
  /\ a.exists = b.exists /\ a.dims = b.dims /\ DOMAIN a.vars = DOMAIN b.vars
  /\ \A n \in DOMAIN a.vars : LET x == a.vars[n]  y == b.vars[n] IN
       /\ x.dims = y.dims /\ x.type = y.type /\ SameAtts(x.atts, y.atts)
       /\ Len(x.data) = Len(y.data) /\ \A i \in 1..Len(x.data) : Alike(x.data[i], y.data[i])
\* the line added to a file's history ends with the command line
HistFits(o, img, line) == HistOk(o, <<[known |-> FALSE, s |-> ": gridpp " \o JoinWords(line)]>> \o img.hist)

PlanOps == {"plan", "cli", "kept"}
StepOps == {"f_open", "f_settimes", "f_setens", "f_setref", "f_init", "d_run", "c_run", "f_write"}
OutputsOf(pl) == {pl.todo[i].f : i \in {i \in 1..Len(pl.todo) : pl.todo[i].op = "f_write"}}
PlanAllowed(pl, disk, e) ==
  LET in == e.in  op == e.op IN
  IF op = "plan" THEN IsOk(e)
  ELSE IF op = "cli" THEN
    /\ IsOk(e) /\ e.out.end \in {"ok", "err"}
    /\ pl.kind = "tells" => e.out.end = "ok"
    /\ pl.kind = "err" => e.out.end = "err"
  \* files that are only read, and those of a command line that means nothing, stay as they are
  ELSE /\ IsOk(e) /\ e.out.exists = TRUE
       /\ pl.kind \in {"tells", "err"} \/ (pl.kind = "runs" /\ in.path \notin OutputsOf(pl)) => NcDumpOk(e.out, disk[in.path])
       /\ pl.kind = "runs" /\ pl.end = "ok" /\ in.path \in OutputsOf(pl) => HistFits(e.out.atts, disk[in.path], pl.line)
PlanAfter(fs, pl, e) ==
  IF e.op = "plan" THEN PlanOf(fs, e.in.args)
  ELSE IF e.op = "cli" THEN [pl EXCEPT !.end = e.out.end]
  ELSE [pl EXCEPT !.kept = With(@, e.in.path, e.out)]
\* every step belongs to the plan; the parts fail only if the program does; and both leave the same behind
InPlan(pl, fl, e) ==
  IF ~pl.on \/ pl.kind # "runs" THEN TRUE
  ELSE IF e.op \in StepOps THEN Len(pl.todo) > 0 /\ StepFits(fl, pl.todo[1], e) /\ (e.r = "err" => pl.end = "err")
  ELSE IF e.op = "nc_dump" THEN Len(pl.todo) = 0 /\ pl.end = "ok" /\ e.in.path \in DOMAIN pl.kept /\ IsOk(e) /\ AlikeDumps(e.out, pl.kept[e.in.path])
  ELSE TRUE
Taken(pl, e) == IF pl.on /\ e.op \in StepOps /\ Len(pl.todo) > 0 THEN [pl EXCEPT !.todo = Tail(@)] ELSE pl
=============================================================================
