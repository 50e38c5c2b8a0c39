---------------------------- MODULE ClientParams ----------------------------
(* Parameter files: sets of parameters kept by location and time, looked up *)
(* at the location itself or the nearest one, read from and written to text *)
(* and NetCDF files.                                                        *)
EXTENDS ClientSetup

\* ---- a store of parameters: locations <<lat, lon, elev>>, for each a sequence over times of parameter values ----------
Nowhere == <<MV, MV, MV>>
IsPlace(l) == CValid(l[1]) /\ CValid(l[2])
ParEmpty == [locs |-> <<>>, vals |-> <<>>, max |-> 0, td |-> FALSE]
AtLoc(s, l) == {i \in 1..Len(s.locs) : CSame(s.locs[i][1], l[1]) /\ CSame(s.locs[i][2], l[2])}
Grown(v, n) == Tab([i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE <<>>])
ParSet(s, l, t, v) ==
  LET known == AtLoc(s, l) # {}
      i == IF known THEN CHOOSE j \in AtLoc(s, l) : TRUE ELSE Len(s.locs) + 1
      old == IF known THEN s.vals[i] ELSE <<>>
      row == [Grown(old, MaxIn({Len(old), t + 1})) EXCEPT ![t + 1] = v]
  IN [s EXCEPT !.locs = IF known THEN @ ELSE Append(@, l), !.vals = IF known THEN [@ EXCEPT ![i] = row] ELSE Append(@, row),
               !.max = MaxIn({@, t}), !.td = @ \/ t > 0]
RECURSIVE ParSets(_, _)
ParSets(s, rows) == IF Len(rows) = 0 THEN s ELSE ParSets(ParSet(s, rows[1].loc, rows[1].t, rows[1].v), Tail(rows))
ParAt(s, i, t) == IF t + 1 <= Len(s.vals[i]) THEN s.vals[i][t + 1] ELSE <<>>
ByPlace(s) == s.typ = "netcdf" \/ Len(s.locs) > 1 \/ (Len(s.locs) = 1 /\ IsPlace(s.locs[1]))
TimeOf(s, cyc, t) == LET u == IF s.td THEN t ELSE 0 IN IF cyc /\ s.max > 0 THEN u % (s.max + 1) ELSE u
ParBadTime(s, cyc, t) == t < 0 \/ TimeOf(s, cyc, t) > s.max

SameValues(o, v, rel) == Len(o) = Len(v) /\ \A k \in 1..Len(v) : CNear(o[k], v[k], 0, rel)
PlaceDist(a, b) == RDist(XYZ("geo", a[1], a[2]), XYZ("geo", b[1], b[2]))
\* those of the places ix that may count as nearest to l
Nearest1(s, ix, l) == LET d == Tab([i \in 1..Len(s.locs) |-> PlaceDist(s.locs[i], l)]) IN
                      {i \in ix : \A j \in ix : RLe(d[i], RAdd(RMul(d[j], RLit("1.00001")), 20))}
LookupOk(s, in, o) ==
  LET t == TimeOf(s, s.cyc, in.t)
      exact == AtLoc(s, in.loc)
      with == {i \in 1..Len(s.locs) : Len(ParAt(s, i, t)) > 0}
      V(i) == SameValues(o, ParAt(s, i, t), s.rel)
  IN IF Len(s.locs) = 0 THEN Len(o) = 0
     ELSE IF in.near = FALSE THEN (IF exact = {} THEN Len(o) = 0 ELSE \A i \in exact : V(i))
     ELSE IF Len(s.locs) = 1 THEN V(1)
     ELSE IF exact # {} /\ exact \subseteq with THEN \A i \in exact : V(i)
     ELSE IF ~s.built THEN TRUE
     ELSE IF with = {} THEN Len(o) = 0
     ELSE \E i \in Nearest1(s, with, in.loc) : V(i)

\* ---- text files -----------------------------------------------------------------------------------------
LinesOf(s) == LET f == Fields(s, "\n") IN IF Len(f[Len(f)]) = 0 THEN SubSeq(f, 1, Len(f) - 1) ELSE f
Letters == {"a", "b", "c", "d", "e", "f", "x", "y", "z"}
Special == {Chars("time"), Chars("lat"), Chars("lon"), Chars("elev")}
Space3 == {Chars("lat"), Chars("lon"), Chars("elev")}
\* [ok: "yes", "no" or "any" (not specified), rows]
ParseParText(s) ==
  LET lines == SelectSeq(LinesOf(s), LAMBDA x : ~(Len(x) > 0 /\ x[1] = "#"))
      odd == \E i \in 1..Len(lines) : Len(Words(lines[i])) = 0 \/ lines[i][Len(lines[i])] = " "
      w == Tab([i \in 1..Len(lines) |-> Words(lines[i])])
      h == w[1]
      rows == Tail(w)
      HeadIx(n) == CHOOSE k \in 1..Len(h) : h[k] = n
      hasT == Chars("time") \in Range1(h)
      hasL == Space3 \subseteq Range1(h)
      lens == {Len(rows[i]) : i \in 1..Len(rows)}
      special == {k \in 1..Len(h) : h[k] \in Special}
      other == SelectSeq([k \in 1..Len(h) |-> k], LAMBDA k : k \notin special)
      Row(x) == [t |-> IF hasT THEN CHOOSE n \in 0..99 : REq(n, Number(x[HeadIx(Chars("time"))])) ELSE 0,
                 loc |-> IF hasL THEN <<Number(x[HeadIx(Chars("lat"))]), Number(x[HeadIx(Chars("lon"))]), Number(x[HeadIx(Chars("elev"))])>> ELSE Nowhere,
                 v |-> Tab([k \in 1..Len(other) |-> Number(x[other[k]])])]
      Bad == [ok |-> "no", rows |-> <<>>]
      Unsure == [ok |-> "any", rows |-> <<>>]
  IN IF Len(lines) = 0 THEN Bad
     ELSE IF odd \/ Cardinality(Range1(h)) # Len(h) THEN Unsure
     ELSE IF Range1(h) \cap Space3 # {} /\ ~hasL THEN Bad
     ELSE IF Len(rows) = 0 THEN Bad
     ELSE IF \E i \in 1..Len(rows) : \E k \in 1..Len(rows[i]) : rows[i][k][1] \in Letters THEN Bad
     ELSE IF Cardinality(lens) > 1 THEN (IF \A k \in special : \A n \in lens : k <= n THEN Bad ELSE Unsure)
     ELSE IF lens # {Len(h)} \/ \E i \in 1..Len(rows) : \E k \in 1..Len(rows[i]) : ~IsDec(rows[i][k]) THEN Unsure
     ELSE IF hasT /\ \E i \in 1..Len(rows) : ~IsInt(rows[i][HeadIx(Chars("time"))]) THEN Unsure
     ELSE IF hasT /\ \E i \in 1..Len(rows) : RLt(Number(rows[i][HeadIx(Chars("time"))]), 0) THEN Bad
     ELSE IF Len(rows) > 1 /\ ~hasT /\ ~hasL THEN Bad
     ELSE LET r == Tab([i \in 1..Len(rows) |-> Row(rows[i])])
              places == {i \in 1..Len(r) : IsPlace(r[i].loc)}
          IN IF places # {} /\ places # 1..Len(r) THEN Unsure ELSE [ok |-> "yes", rows |-> r]

\* ---- NetCDF files -----------------------------------------------------------------------------------------
NcNames(f) == {f.vars[i].n : i \in 1..Len(f.vars)}
NcVar(f, n) == f.vars[CHOOSE i \in 1..Len(f.vars) : f.vars[i].n = n]
NcDims(f) == {f.dims[i].n : i \in 1..Len(f.dims)}
NcSize(f, n) == f.dims[CHOOSE i \in 1..Len(f.dims) : f.dims[i].n = n].size
FirstIn(names, s) == LET ix == {i \in 1..Len(names) : names[i] \in s} IN IF ix = {} THEN "" ELSE names[MinIn(ix)]
\* the value of v where dimension d has index ix(d), counted from zero
RECURSIVE Flat(_, _, _, _)
Flat(f, ds, ix, k) == IF k = 0 THEN 0 ELSE Flat(f, ds, ix, k - 1) * NcSize(f, ds[k]) + (IF ds[k] \in DOMAIN ix THEN ix[ds[k]] ELSE 0)
FillOf(v) == IF "atts" \in DOMAIN v /\ "_FillValue" \in DOMAIN v.atts THEN v.atts["_FillValue"] ELSE RLit("9.969209968386869e36")
NcAt(f, v, ix) == LET x == v.data[Flat(f, v.dims, ix, Len(v.dims)) + 1] IN IF ~IsFin(x) \/ REq(x, FillOf(v)) THEN MV ELSE x
NcPar(f, o) ==
  LET dn == Opt(o, "dimName", "coeff")
      dLat == IF "yDim" \in DOMAIN o THEN o.yDim ELSE FirstIn(<<"lat", "latitude", "y">>, NcDims(f))
      dLon == IF "xDim" \in DOMAIN o THEN o.xDim ELSE FirstIn(<<"lon", "longitude", "x">>, NcDims(f))
      vLat == FirstIn(<<"lat", "latitude">>, NcNames(f))
      vLon == FirstIn(<<"lon", "longitude">>, NcNames(f))
      vn == Opt(o, "varName", "coefficient")
      hasT == "time" \in NcNames(f) /\ "time" \in NcDims(f)
      nt == IF hasT THEN NcSize(f, "time") ELSE 1
      ny == NcSize(f, dLat)  nx == NcSize(f, dLon)  nc == NcSize(f, dn)
      v == NcVar(f, vn)
      Ix(y, x) == (dLat :> y) @@ (dLon :> x)
      GridAt(n, y, x) == NcAt(f, NcVar(f, n), Ix(y, x))
      locs == Tab([i \in 1..(ny * nx) |-> LET y == (i - 1) \div nx  x == (i - 1) % nx IN
                  <<GridAt(vLat, y, x), GridAt(vLon, y, x), IF "altitude" \in NcNames(f) THEN GridAt("altitude", y, x) ELSE MV>>])
      vals == Tab([i \in 1..(ny * nx) |-> LET y == (i - 1) \div nx  x == (i - 1) % nx IN
                  Tab([t \in 1..nt |-> Tab([c \in 1..nc |-> NcAt(f, v, Ix(y, x) @@ ("time" :> t - 1) @@ (dn :> c - 1))])])])
  IN IF dLat \notin NcDims(f) \/ dLon \notin NcDims(f) \/ dn \notin NcDims(f) \/ vLat = "" \/ vLon = "" \/ vn \notin NcNames(f) THEN [ok |-> "no"]
     ELSE IF {dLat, dLon, dn} \ Range1(v.dims) # {} THEN [ok |-> "no"]
     ELSE [ok |-> "yes", s |-> [locs |-> locs, vals |-> vals, max |-> nt - 1, td |-> nt > 1]]

\* ---- the operations -----------------------------------------------------------------------------------------
ParamOps == {"p_new", "p_set", "p_tree", "p_get", "p_info", "p_write", "p_del"}
\* what opening the file gives
Opened(src, in) ==
  LET path == in.opt.file IN
  IF in.new THEN [ok |-> "yes", s |-> ParEmpty]
  ELSE IF in.type = "text" THEN
    IF path \notin DOMAIN src THEN [ok |-> "yes", s |-> ParEmpty]
    ELSE IF src[path].k = "text" THEN (LET p == ParseParText(src[path].in.s) IN IF p.ok = "yes" THEN [ok |-> "yes", s |-> ParSets(ParEmpty, p.rows)] ELSE [ok |-> p.ok])
    ELSE IF src[path].k = "partext" THEN src[path].got
    ELSE [ok |-> "any"]
  ELSE IF path \notin DOMAIN src THEN [ok |-> "no"]
  ELSE IF src[path].k = "nc" THEN NcPar(src[path].in, in.opt)
  ELSE IF src[path].k = "parnc" THEN (IF "coeff" = Opt(in.opt, "dimName", "coeff") /\ src[path].var = Opt(in.opt, "varName", "coefficient") THEN src[path].got ELSE [ok |-> "any"])
  ELSE [ok |-> "no"]
\* what a written file holds; sets that were empty are left out of text files, and are missing values in NetCDF files
SetSizes(s) == UNION {{Len(s.vals[i][t]) : t \in 1..Len(s.vals[i])} : i \in 1..Len(s.locs)}
WrittenText(s) ==
  LET n == SetSizes(s) \ {0}
      ts == {t \in 0..s.max : \E i \in 1..Len(s.locs) : Len(ParAt(s, i, t)) > 0}
      RECURSIVE Rows(_, _)
      Rows(i, t) == IF i > Len(s.locs) THEN <<>>
                    ELSE IF t > s.max THEN Rows(i + 1, 0)
                    ELSE (IF Len(ParAt(s, i, t)) > 0 THEN <<[loc |-> s.locs[i], t |-> t, v |-> ParAt(s, i, t)]>> ELSE <<>>) \o Rows(i, t + 1)
  IN IF n = {} \/ Cardinality(n) > 1 THEN [ok |-> "no"]
     ELSE [ok |-> "yes", s |-> ParSets(ParEmpty, Rows(1, 0))]
WrittenNc(s) ==
  LET n == MaxIn(SetSizes(s) \cup {0})
      nt == MaxIn({0} \cup {Len(s.vals[i]) : i \in 1..Len(s.locs)})
  IN [ok |-> "yes", s |-> [s EXCEPT !.vals = Tab([i \in 1..Len(s.locs) |-> Tab([t \in 1..nt |-> IF Len(ParAt(s, i, t - 1)) = 0 THEN [k \in 1..n |-> MV] ELSE ParAt(s, i, t - 1)])]),
                                   !.max = nt - 1, !.td = nt > 1]]
NcWritable(s) == s.built /\ ByPlace(s) /\ Cardinality(SetSizes(s) \ {0}) = 1
FirstHas(s) == \A i \in 1..Len(s.locs) : \E t \in 0..s.max : Len(ParAt(s, i, t)) > 0
ParamAllowed(ps, src, e) ==
  LET in == e.in  op == e.op  s == ps[in.p] IN
  IF op = "p_new" THEN (IF in.type \notin {"text", "netcdf"} THEN IsErr(e)
                        ELSE LET o == Opened(src, in).ok IN IF o = "any" THEN IsErr(e) \/ IsOk(e) ELSE IF o = "yes" THEN IsOk(e) ELSE IsErr(e))
  ELSE IF op = "p_del" THEN IsOk(e)
  ELSE IF s.dead THEN IsOk(e) \/ IsErr(e)
  ELSE IF op = "p_set" THEN IF in.t < 0 THEN IsErr(e) ELSE IsOk(e)
  ELSE IF op = "p_tree" THEN IsOk(e) \/ (s.typ = "netcdf" /\ ~\E i \in 1..Len(s.locs) : IsPlace(s.locs[i]) /\ IsErr(e))
  ELSE IF op = "p_get" THEN
    IF ParBadTime(s, s.cyc, in.t) THEN IsErr(e)
    ELSE IF "loc" \in DOMAIN in THEN IsOk(e) /\ LookupOk(s, in, e.out)
    ELSE IF ByPlace(s) THEN IsErr(e)
    ELSE IsOk(e) /\ (IF Len(s.locs) = 0 THEN Len(e.out) = 0 ELSE SameValues(e.out, ParAt(s, 1, TimeOf(s, s.cyc, in.t)), s.rel))
  ELSE IF op = "p_info" THEN
    /\ IsOk(e) /\ e.out.locdep = ByPlace(s) /\ e.out.timedep = s.td
    /\ s.built => /\ Len(e.out.locs) = (IF ByPlace(s) \/ s.typ = "netcdf" THEN Len(s.locs) ELSE 0)
                  /\ \A k \in 1..Len(e.out.locs) : \E i \in 1..Len(s.locs) : \A c \in 1..3 : CSame(e.out.locs[k][c], s.locs[i][c])
                  /\ \A i \in 1..Len(s.locs) : ByPlace(s) => \E k \in 1..Len(e.out.locs) : CSame(e.out.locs[k][1], s.locs[i][1]) /\ CSame(e.out.locs[k][2], s.locs[i][2])
    /\ LET all == {Len(ParAt(s, i, t)) : i \in 1..Len(s.locs), t \in 0..s.max} IN Cardinality(all) = 1 => \A n \in all : REq(e.out.num, n)
  ELSE IF op = "p_write" THEN
    IF s.typ = "text" THEN IsOk(e)
    ELSE IF ~s.new THEN IsOk(e) \/ IsErr(e)
    ELSE IF NcWritable(s) /\ FirstHas(s) THEN IsOk(e) ELSE IF NcWritable(s) THEN IsOk(e) \/ IsErr(e) ELSE IsErr(e) \/ (Cardinality(SetSizes(s) \ {0}) <= 1 /\ ~s.built /\ IsOk(e))
  ELSE FALSE
\* s is what the store holds now; its file (path) is only there once written
ParamAfter(ps, src, e) ==
  LET in == e.in  op == e.op IN
  IF op = "p_new" THEN
    LET o == Opened(src, in) IN
    With(ps, in.p, [dead |-> o.ok # "yes", typ |-> in.type, new |-> in.new, path |-> in.opt.file, built |-> ~in.new, var |-> Opt(in.opt, "varName", "coefficient"),
          cyc |-> "cycle" \in DOMAIN in.opt /\ REq(in.opt.cycle, 1), rel |-> RLit("1e-5")]
         @@ (IF o.ok = "yes" THEN o.s ELSE ParEmpty))
  ELSE LET s == ps[in.p] IN
  IF s.dead THEN ps
  ELSE IF op = "p_set" THEN
    LET n == ParSet(s, IF "loc" \in DOMAIN in THEN in.loc ELSE Nowhere, in.t, in.v) IN With(ps, in.p, [n EXCEPT !.built = FALSE])
  ELSE IF op = "p_tree" THEN With(ps, in.p, [s EXCEPT !.built = TRUE])
  ELSE ps
SrcAfter(ps, src, e) ==
  LET in == e.in  op == e.op IN
  IF op \in {"mk_nc", "w_text"} THEN With(src, in.path, [k |-> IF op = "mk_nc" THEN "nc" ELSE "text", in |-> in])
  ELSE IF op = "p_new" /\ in.new /\ in.type = "netcdf" THEN With(src, in.opt.file, [k |-> "open"])
  ELSE IF op = "p_write" THEN
    LET s == ps[in.p] IN
    With(src, s.path, IF s.dead THEN [k |-> "open"]
                      ELSE IF s.typ = "text" THEN [k |-> "partext", got |-> WrittenText(s)]
                      ELSE IF s.new /\ s.built THEN [k |-> "parnc", var |-> s.var, got |-> WrittenNc(s)] ELSE [k |-> "open"])
  ELSE src
=============================================================================
