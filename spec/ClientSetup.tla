----------------------------- MODULE ClientSetup -----------------------------
(* The command line: input file, output file, their options, aliases, and    *)
(* blocks of a variable with its downscaler and calibrators.  Stated as a    *)
(* grammar over words, not as the parser that reads it.                      *)
EXTENDS ClientBase

FlagV == <<"-", "v">>
FlagVi == <<"-", "v", "i">>
FlagVa == <<"-", "v", "a">>
FlagD == <<"-", "d">>
FlagC == <<"-", "c">>
FlagP == <<"-", "p">>
HeadFlags == {FlagV, FlagVi}
BlockFlags == {FlagV, FlagVi, FlagD, FlagC, FlagP}
Dashed(w) == w[1] = "-"
HasEq(w) == Find(w, "=") > 0

DownNames == {"nearestNeighbour", "smart", "bypass", "pressure", "gradient", "bilinear", "upscale"}
CalNames == {"zaga", "cloud", "accumulate", "deaccumulate", "gaussian", "neighbourhood", "diagnoseHumidity", "diagnoseWind", "oi", "override", "phase",
             "windDirection", "kriging", "window", "qc", "qnh", "qq", "regression", "bct", "sort", "altitude", "mask", "coastal", "threshold"}

\* ---- files ------------------------------------------------------------------------
\* how many of the words from i on fulfil P before the first that does not
FirstNot(w, i, P(_)) == LET no == {j \in i..Len(w) : ~P(w[j])} IN IF no = {} THEN Len(w) + 1 ELSE MinIn(no)
FilePart(w) ==
  LET a == FirstNot(w, 2, HasEq)                 \* the output file, or the first flag
      iopts == PutWords(<<>>, SubSeq(w, 2, a - 1))
  IN IF a > Len(w) THEN [none |-> TRUE]
     ELSE IF Dashed(w[a]) THEN [none |-> FALSE, inp |-> w[1], outp |-> w[1], iopts |-> iopts, oopts |-> iopts, rest |-> SubSeq(w, a, Len(w))]
     ELSE LET b == FirstNot(w, a + 1, HasEq) IN
          [none |-> FALSE, inp |-> w[1], outp |-> w[a], iopts |-> iopts, oopts |-> PutWords(<<>>, SubSeq(w, a + 1, b - 1)), rest |-> SubSeq(w, b, Len(w))]
FileList(s) == Split(s, {","})

\* ---- groups of a flag, a name and options ---------------------------------------------
RECURSIVE AscendingIn(_)
AscendingIn(S) == IF S = {} THEN <<>> ELSE <<MinIn(S)>> \o AscendingIn(S \ {MinIn(S)})
\* a group for each place at which a flag of F stands
GroupsOf(w, F) ==
  LET at == AscendingIn({i \in 1..Len(w) : w[i] \in F})
  IN [k \in 1..Len(at) |->
       LET stop == IF k = Len(at) THEN Len(w) ELSE at[k + 1] - 1 IN
       [f |-> w[at[k]], bare |-> stop = at[k], name |-> IF stop = at[k] THEN <<>> ELSE w[at[k] + 1],
        opts |-> SubSeq(w, at[k] + 2, stop)]]
\* the groups of scheme k's own parameter files
RECURSIVE Schemes(_)
Schemes(g) ==
  IF Len(g) = 0 THEN <<>>
  ELSE LET n == LET q == {j \in 2..Len(g) : g[j].f # FlagP} IN IF q = {} THEN Len(g) ELSE MinIn(q) - 1
       IN <<[f |-> g[1].f, name |-> Join(g[1].name), opts |-> PutWords(<<>>, g[1].opts), pars |-> SubSeq(g, 2, n)]>> \o Schemes(SubSeq(g, n + 1, Len(g)))
RECURSIVE BlocksOf(_)
BlocksOf(g) ==
  IF Len(g) = 0 THEN <<>>
  ELSE LET h == IF Len(g) > 1 /\ g[2].f \in HeadFlags \ {g[1].f} THEN 2 ELSE 1
           n == LET q == {j \in (h + 1)..Len(g) : g[j].f \in HeadFlags} IN IF q = {} THEN Len(g) ELSE MinIn(q) - 1
           v == {j \in 1..h : g[j].f = FlagV}
           vi == {j \in 1..h : g[j].f = FlagVi}
           tail == SubSeq(g, h + 1, n)
           vn == IF v = {} THEN <<>> ELSE g[MinIn(v)].name
           vo == IF v = {} THEN <<>> ELSE PutWords(<<>>, g[MinIn(v)].opts)
       IN <<[hasv |-> v # {}, name |-> vn, opts |-> vo,
             iname |-> IF vi = {} THEN vn ELSE g[MinIn(vi)].name, iopts |-> IF vi = {} THEN vo ELSE PutWords(<<>>, g[MinIn(vi)].opts),
             early |-> Len(tail) > 0 /\ tail[1].f = FlagP, schemes |-> IF Len(tail) > 0 /\ tail[1].f = FlagP THEN <<>> ELSE Schemes(tail)]>>
          \o BlocksOf(SubSeq(g, n + 1, Len(g)))
AliasPart(w) == LET q == {i \in 1..Len(w) : w[i] \in HeadFlags} IN IF q = {} THEN Len(w) ELSE MinIn(q) - 1

Cals(b) == SelectSeq(b.schemes, LAMBDA s : s.f = FlagC)
Downs(b) == SelectSeq(b.schemes, LAMBDA s : s.f = FlagD)
Down(b) == IF Len(Downs(b)) = 0 THEN [name |-> "nearestNeighbour", opts |-> <<>>, pars |-> <<>>] ELSE Downs(b)[Len(Downs(b))]
Repeated(bs, k) == \E j \in 1..(k - 1) : bs[j].name = bs[k].name
POpts(p) == Put(PutWords(<<>>, p.opts), <<"f", "i", "l", "e">>, p.name)
TypeKey == <<"t", "y", "p", "e">>
NameKey == <<"n", "a", "m", "e">>
OptOr(m, k, d) == IF Has(m, k) THEN Get(m, k) ELSE d

\* ---- what it means -----------------------------------------------------------------------
\* fs: the files there are, by name: [k |-> "nc", vars |-> name -> [units, std]] or [k |-> "text"]
VarOf(name, d) == [name |-> name, min |-> MV, max |-> MV, units |-> d.units, std |-> d.std]
NumOpt(m, k, d) == IF Has(m, k) THEN Number(Get(m, k)) ELSE d
UnitsKey == <<"u", "n", "i", "t", "s">>
StdKey == <<"s", "t", "a", "n", "d", "a", "r", "d", "N", "a", "m", "e">>
Added(v, m) == [v EXCEPT !.units = OptOr(m, UnitsKey, v.units), !.std = OptOr(m, StdKey, v.std),
                         !.min = NumOpt(m, <<"m", "i", "n">>, v.min), !.max = NumOpt(m, <<"m", "a", "x">>, v.max)]
Plain == [units |-> <<>>, std |-> <<>>]
NcHas(fs, f, n) == Join(n) \in DOMAIN fs[f].vars
AliasIx(al, n) == {i \in 1..Len(al) : al[i].name = n}
\* an alias stands for a variable; the first definition counts
AliasVar(a) == LET m == PutWords(<<>>, a.opts) IN Added(VarOf(Get(m, NameKey), Plain), m)
OutVar(fs, p, b) ==
  LET o == Join(FileList(p.outp)[1])  i == Join(FileList(p.inp)[1])
      base == IF NcHas(fs, o, b.name) THEN VarOf(b.name, fs[o].vars[Join(b.name)])
              ELSE IF NcHas(fs, i, b.name) THEN VarOf(b.name, fs[i].vars[Join(b.name)]) ELSE VarOf(b.name, Plain)
  IN Added(base, b.opts)
Earlier(bs, k, n) == {j \in 1..(k - 1) : bs[j].name = n /\ ~Repeated(bs, j)}
SameFile(p) == FileList(p.inp)[1] = FileList(p.outp)[1]
\* the input variable: of the file, an alias, or one made before in the same file
InVar(fs, p, al, bs, k) ==
  LET b == bs[k]  i == Join(FileList(p.inp)[1]) IN
  IF NcHas(fs, i, b.iname) THEN [found |-> TRUE, v |-> Added(VarOf(b.iname, fs[i].vars[Join(b.iname)]), b.iopts)]
  ELSE IF AliasIx(al, b.iname) # {} THEN [found |-> TRUE, v |-> Added(AliasVar(al[MinIn(AliasIx(al, b.iname))]), b.iopts)]
  ELSE IF SameFile(p) /\ Earlier(bs, k, b.iname) # {} THEN [found |-> TRUE, v |-> Added(OutVar(fs, p, bs[MinIn(Earlier(bs, k, b.iname))]), b.iopts)]
  ELSE [found |-> FALSE, v |-> Added(VarOf(<<>>, Plain), b.iopts)]

ParBad(fs, g) == ~Has(PutWords(<<>>, g.opts), TypeKey) \/ Join(Get(PutWords(<<>>, g.opts), TypeKey)) # "text" \/ Join(g.name) \notin DOMAIN fs \/ fs[Join(g.name)].k # "text"
FileBad(fs, f) == Join(f) \notin DOMAIN fs \/ fs[Join(f)].k # "nc"
Verdict(fs, w) ==
  LET p == FilePart(w) IN
  IF Len(w) = 0 THEN [err |-> TRUE, free |-> FALSE]
  ELSE IF p.none THEN [err |-> TRUE, free |-> FALSE]
  ELSE
  LET ins == FileList(p.inp)  outs == FileList(p.outp)
      filesBad == Len(ins) # Len(outs) \/ Len(ins) = 0 \/ (\E i \in 1..Len(ins) : FileBad(fs, ins[i])) \/ (\E i \in 1..Len(outs) : FileBad(fs, outs[i]))
      clash == PairSet(p.iopts) # PairSet(p.oopts) /\ \E i \in 1..Len(ins) : ins[i] = outs[i]
      r == p.rest
      na == AliasPart(r)
      al == GroupsOf(SubSeq(r, 1, na), {FlagVa})
      w2 == SubSeq(r, na + 1, Len(r))
      gs == GroupsOf(w2, BlockFlags)
  IN
  IF filesBad \/ clash \/ Len(r) = 0 THEN [err |-> TRUE, free |-> FALSE]
  ELSE IF r[1] \notin {FlagV, FlagVi, FlagVa} THEN [err |-> TRUE, free |-> FALSE]
  ELSE IF (\E i \in 1..Len(al) : al[i].bare \/ Dashed(al[i].name) \/ (~Has(PutWords(<<>>, al[i].opts), NameKey) /\ \A j \in 1..(i - 1) : al[j].name # al[i].name))
       THEN [err |-> TRUE, free |-> FALSE]
  ELSE IF na = Len(r) THEN [err |-> FALSE, free |-> TRUE]
  ELSE
  LET bs == BlocksOf(gs)
      bare == \E i \in 1..Len(gs) : gs[i].f \notin HeadFlags /\ gs[i].bare
      twice == \E k \in 1..Len(bs) : Repeated(bs, k)
      headBad == \E i \in 1..Len(gs) : gs[i].f \in HeadFlags /\ (gs[i].bare \/ Dashed(gs[i].name))
      parsOf(k) == UNION {{bs[k].schemes[s].pars[q] : q \in 1..Len(bs[k].schemes[s].pars)} : s \in 1..Len(bs[k].schemes)}
      blockBad(k) ==
        LET b == bs[k] IN
        \/ ~b.hasv \/ b.early
        \/ \E s \in 1..Len(b.schemes) : b.schemes[s].f = FlagD /\ Len(b.schemes[s].pars) > 1
        \/ \E g \in parsOf(k) : ParBad(fs, g)
      \* only a variable read for the first time has its schemes made
      schemeBad(k) == Down(bs[k]).name \notin DownNames \/ \E c \in 1..Len(Cals(bs[k])) : Cals(bs[k])[c].name \notin CalNames
      inBad(k) == ~InVar(fs, p, al, bs, k).found /\ Down(bs[k]).name # "bypass"
  IN
  IF bare THEN [err |-> TRUE, free |-> twice]
  \* several parameter files for one calibrator: nothing is said
  ELSE IF \E k \in 1..Len(bs) : \E c \in 1..Len(Cals(bs[k])) : Len(Cals(bs[k])[c].pars) > 1 THEN [err |-> TRUE, free |-> TRUE]
  ELSE IF headBad \/ (\E k \in 1..Len(bs) : blockBad(k)) THEN [err |-> TRUE, free |-> FALSE]
  ELSE IF \E k \in 1..Len(bs) : ~Repeated(bs, k) /\ (schemeBad(k) \/ inBad(k)) THEN [err |-> TRUE, free |-> FALSE]
  ELSE LET free == (\E i \in 1..Len(ins) : \E j \in 1..Len(outs) : i # j /\ (ins[i] = outs[j] \/ ins[i] = ins[j]))
       IN [err |-> FALSE, free |-> free, p |-> p, al |-> al, bs |-> bs,
           maybe |-> \E k \in 1..Len(bs) : Repeated(bs, k) /\ (schemeBad(k) \/ inBad(k))]

\* ---- against what the program made of it --------------------------------------------------
SameOpts(text, m) == PairSet(Parse(text)) = PairSet(m) /\ Len(Parse(text)) = Len(m)
SameVar(o, v) == o.name = v.name /\ (Len(v.name) > 0 => REq(o.min, v.min) /\ REq(o.max, v.max)) /\ o.units = v.units /\ o.std = v.std
\* a gradient downscaler shows its constant gradient in what it makes of 1 at a height of 0, at a height of 100
GradKey == <<"c", "o", "n", "s", "t", "a", "n", "t", "E", "l", "e", "v", "G", "r", "a", "d", "i", "e", "n", "t">>
GradOk(o, d) == Len(o.grad) > 0 => RNear(o.grad[1], RAdd(1, RMul(100, NumOpt(d.opts, GradKey, 0))), Tiny, Eps)
\* the last word on a line of parameters' options wins; the file's name is one of them
ParOk(has, name, opts, pars) ==
  IF Len(pars) = 0 THEN has = FALSE ELSE has = TRUE /\ name = pars[1].name /\ SameOpts(opts, POpts(pars[1]))
RECURSIVE FirstOnes(_, _)
FirstOnes(bs, k) == IF k > Len(bs) THEN <<>> ELSE (IF Repeated(bs, k) THEN <<>> ELSE <<k>>) \o FirstOnes(bs, k + 1)
RECURSIVE FirstAliases(_, _)
FirstAliases(al, k) == IF k > Len(al) THEN {} ELSE (IF \E j \in 1..(k - 1) : al[j].name = al[k].name THEN {} ELSE {k}) \cup FirstAliases(al, k + 1)
ConfigOk(fs, vd, k, o) ==
  LET b == vd.bs[k]  d == Down(b)  c == Cals(b)  iv == InVar(fs, vd.p, vd.al, vd.bs, k) IN
  /\ SameVar(o.ov, OutVar(fs, vd.p, b))
  /\ (iv.found => SameVar(o.iv, iv.v)) /\ (~iv.found => o.iv.name = <<>>)
  /\ SameOpts(o.ovopts, b.opts) /\ SameOpts(o.ivopts, b.iopts)
  /\ o.down = d.name /\ GradOk(o, d) /\ ParOk(o.hasp, o.p, o.popts, d.pars)
  /\ Len(o.cals) = Len(c) /\ o.npar = Len(c)
  /\ \A i \in 1..Len(c) : o.cals[i].name = c[i].name /\ SameOpts(o.cals[i].opts, c[i].opts) /\ ParOk(o.cals[i].has, o.cals[i].p, o.cals[i].popts, c[i].pars)
SetupOk(fs, e) ==
  LET w == e.in.args  vd == Verdict(fs, w) IN
  IF e.r \notin {"ok", "err"} THEN FALSE
  ELSE IF vd.free THEN TRUE
  ELSE IF vd.err THEN e.r = "err"
  ELSE \/ vd.maybe /\ e.r = "err"
       \/ /\ e.r = "ok"
          /\ LET o == e.out  ins == FileList(vd.p.inp)  outs == FileList(vd.p.outp)  ks == FirstOnes(vd.bs, 1)  as == FirstAliases(vd.al, 1) IN
             /\ Len(o.files) = Len(ins)
             /\ \A i \in 1..Len(ins) : o.files[i]["in"] = ins[i] /\ o.files[i].out = outs[i] /\ o.files[i].same = (ins[i] = outs[i])
             /\ SameOpts(o.iopts, vd.p.iopts) /\ SameOpts(o.oopts, vd.p.oopts)
             /\ Len(o.vars) = Len(ks) /\ \A i \in 1..Len(ks) : ConfigOk(fs, vd, ks[i], o.vars[i])
             /\ Len(o.aliases) = Cardinality(as) /\ \A a \in as : \E i \in 1..Len(o.aliases) : o.aliases[i].a = vd.al[a].name /\ SameVar(o.aliases[i].v, AliasVar(vd.al[a]))

\* ---- the files, as the session made them ------------------------------------------------------
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
AttOr(v, k) == IF "atts" \in DOMAIN v /\ k \in DOMAIN v.atts THEN Chars(v.atts[k]) ELSE <<>>
NcEntry(in) == LET n == {in.vars[i].n : i \in 1..Len(in.vars)} IN
               [k |-> "nc", vars |-> [x \in n |-> LET v == in.vars[CHOOSE i \in 1..Len(in.vars) : in.vars[i].n = x] IN [units |-> AttOr(v, "units"), std |-> AttOr(v, "standard_name")]]]
SetupOps == {"setup"}
=============================================================================
