------------------------------ MODULE ClientCalib ------------------------------
(* Calibrators of the command-line program that need no calibrated            *)
(* coefficients: what becomes of the fields of one variable, and that those of *)
(* all others stay.  in.look: the variables looked at afterwards.              *)
EXTENDS ClientDown

FVal(f, c) == f[c[1]][c[2]][c[3]]
SetSizesAt(p) == {Len(ParAt(p, i, t)) : i \in 1..Len(p.locs), t \in 0..p.max}
\* which parameter sets may be found for a place at (parameter) time t: indices into locs, none if there are none
FoundAt(p, l, t) ==
  LET exact == AtLoc(p, l)
      with == {i \in 1..Len(p.locs) : Len(ParAt(p, i, t)) > 0}
  IN IF Len(p.locs) = 1 THEN {1}
     ELSE IF exact # {} /\ exact \subseteq with THEN exact
     ELSE IF with = {} THEN {} ELSE Nearest1(p, with, l)
ParsFor(p, l, t) == LET u == TimeOf(p, p.cyc, t)  S == FoundAt(p, l, u) IN IF S = {} THEN {<<>>} ELSE {ParAt(p, i, u) : i \in S}
CellPlace(s, y, x) == <<s.lats[y][x], s.lons[y][x], s.elevs[y][x]>>
PlaceArc(a, b) == ArcOf(RDist(XYZ("geo", a[1], a[2]), XYZ("geo", b[1], b[2])))

StatOpts(o) == "stat" \in DOMAIN o /\ (o.stat \notin DOMAIN UStat \cup {"quantile"} \/ (o.stat = "quantile" /\ ("quantile" \notin DOMAIN o \/ CMissing(o.quantile) \/ BadLevel(o.quantile))))
CStatIs(x, o, v, slack) ==
  LET stat == Opt(o, "stat", "mean") IN
  IF stat = "quantile" THEN QuantileOk(Cv(x), v, o.quantile) ELSE StatOk(Cv(x), UStat[stat], v, slack (+) (CTiny (.) MaxAbs(ValidOf(v))))
PlainCals == {"threshold", "mask", "qc", "cloud", "phase", "diagnoseWind", "diagnoseHumidity", "altitude", "qnh", "sort", "override", "window", "accumulate", "deaccumulate", "neighbourhood"}
NeedsPar == {"mask", "altitude", "override"}
NeedVars(in) ==
  CASE in.name = "diagnoseWind" -> IF in.opt.compute \in {"x", "y"} THEN <<"speed", "direction">> ELSE IF in.opt.compute \in {"speed", "direction"} THEN <<"x", "y">> ELSE <<>>
    [] in.name = "diagnoseHumidity" -> IF in.opt.compute = "rh" THEN <<"temperature", "dewpoint">> ELSE IF in.opt.compute \in {"dewpoint", "wetbulb"} THEN <<"temperature", "rh">> ELSE <<"temperature">>
    [] in.name = "phase" -> <<"temperature", "precipitation">>
    [] in.name = "cloud" -> <<"precipVariable">>
    [] in.name = "qnh" -> <<"pressureVariable">>
    [] OTHER -> <<>>
\* an error whatever the file holds
CalBadOptions(in) ==
  LET o == in.opt IN
  \/ in.name \in {"diagnoseWind", "diagnoseHumidity"} /\ "compute" \notin DOMAIN o
  \/ (in.name \in {"diagnoseWind", "diagnoseHumidity"} => "compute" \in DOMAIN o) /\ \E i \in 1..Len(NeedVars(in)) : NeedVars(in)[i] \notin DOMAIN o
  \/ in.name = "threshold" /\ ("thresholds" \notin DOMAIN o \/ "values" \notin DOMAIN o)
  \/ in.name = "threshold" /\ "thresholds" \in DOMAIN o /\ "values" \in DOMAIN o /\ (Len(o.values) # Len(o.thresholds) + 1 \/ Len(Opt(o, "equals", o.thresholds)) # Len(o.thresholds))
  \/ in.name \in {"window", "neighbourhood"} /\ StatOpts(o)
  \/ in.name = "deaccumulate" /\ Opt(o, "window", 1) < 0
  \/ in.name = "window" /\ (Opt(o, "length", 7) < 1 \/ Opt(o, "edgePolicy", "compute") \notin {"compute", "missing"})
  \/ in.name = "neighbourhood" /\ Opt(o, "radius", 3) < 0
  \/ in.name \in NeedsPar /\ "p" \notin DOMAIN in
\* the parameter file does not serve: "no" an error, "any" not specified, "yes"
ParServes(in, p, nt) ==
  LET sizes == SetSizesAt(p) IN
  CASE in.name = "mask" -> IF ~ByPlace(p) THEN "no" ELSE IF \E t \in 0..(nt - 1) : ParBadTime(p, p.cyc, t) THEN "no" ELSE IF sizes = {0} THEN "no" ELSE IF Cardinality(sizes) = 1 THEN "yes" ELSE "any"
    [] in.name = "altitude" -> IF ~ByPlace(p) THEN "no" ELSE "yes"
    [] in.name = "override" -> IF ~ByPlace(p) THEN "no" ELSE IF \E t \in 0..(nt - 1) : ParBadTime(p, p.cyc, t) THEN "no" ELSE IF sizes = {1} THEN "yes" ELSE IF Cardinality(sizes) = 1 THEN "no" ELSE "any"
    [] in.name = "neighbourhood" -> IF ByPlace(p) THEN "no" ELSE IF Len(p.locs) = 0 \/ \E t \in 0..(nt - 1) : ParBadTime(p, p.cyc, t) THEN "no"
                                    ELSE IF \E t \in 0..(nt - 1) : LET v == ParAt(p, 1, TimeOf(p, p.cyc, t)) IN Len(v) = 0 \/ (Len(v) > 0 /\ ((CValid(v[1]) /\ v[1] \preceq RNeg(1)) \/ CMissing(v[1]))) THEN "no" ELSE "yes"
    [] OTHER -> "yes"

\* F(n): the fields of n before; x: the value afterwards of cell c at time t; old: the one before
ThresholdTo(o, v) ==
  LET n == Len(o.thresholds)
      hit == {p \in 1..n : v \prec o.thresholds[p] \/ (REq(v, o.thresholds[p]) /\ "equals" \in DOMAIN o /\ REq(o.equals[p], 1))}
  IN IF hit = {} THEN o.values[n + 1] ELSE o.values[MinIn(hit)]
PhaseTo(o, T, p) ==
  LET a == RF32(Opt(o, "snowThreshold", RLit("273.15")))  b == RF32(Opt(o, "rainThreshold", RLit("274.15")))  m == RF32(Opt(o, "minPrecip", RLit("0.2")))
      kind == IF T \prec a THEN {3} ELSE IF REq(T, a) THEN {2, 3} ELSE IF T \preceq b THEN {2} ELSE {1}
  IN IF p \prec m THEN {0} ELSE IF REq(p, m) THEN {0} \cup kind ELSE kind
WindComponentOk(x, sp, dir, f) == RNear(x, RNeg(sp (.) f), RLit("1e-6") (.) RAbs(sp) (.) RMax2(1, RAbs(dir) (/) 360), 0)
\* the cells of a field around one, as a list
Around(s, f, c, r) ==
  LET ys == MaxIn({1, c[1] - r})..MinIn({s.ny, c[1] + r})  xs == MaxIn({1, c[2] - r})..MinIn({s.nx, c[2] + r})
      w == Cardinality(xs)
  IN Tab([i \in 1..(Cardinality(ys) * w) |-> Cv(f[MinIn(ys) + ((i - 1) \div w)][MinIn(xs) + ((i - 1) % w)][c[3]])])
MemberMax(s, f, m) == RMaxOf(Tab([i \in 1..(s.ny * s.nx) |-> LET v == f[1 + ((i - 1) \div s.nx)][1 + ((i - 1) % s.nx)][m] IN IF CMissing(v) THEN RNum(0, 1) ELSE RAbs(v)]))
RadiusAt(in, p, t) == IF "p" \in DOMAIN in THEN MaxIn({0, RFloor(ParAt(p, 1, TimeOf(p, p.cyc, t))[1])}) ELSE Opt(in.opt, "radius", 3)
\* points of the parameter file near one: whether the cell is surely, or maybe, within the radius of any
MaskWithin(s, p, y, x, t) ==
  LET l == CellPlace(s, y, x)
      D(k) == PlaceArc(l, p.locs[k])
      R(k) == {v[1] : v \in ParsFor(p, p.locs[k], t)}
      Tol(d) == RNum(3, 1) (+) (RLit("2e-6") (.) d)
      same(k) == REq(l[1], p.locs[k][1]) /\ REq(l[2], p.locs[k][2])
      Sure(k) == IF same(k) THEN \A r \in R(k) : 0 \prec r ELSE LET d == D(k) IN \A r \in R(k) : (d (+) Tol(d)) \prec r
      May(k) == IF same(k) THEN \E r \in R(k) : 0 \prec r ELSE LET d == D(k) IN \E r \in R(k) : d \prec (r (+) Tol(d)) /\ 0 \prec r
  IN IF \E k \in 1..Len(p.locs) : Sure(k) THEN "in" ELSE IF \E k \in 1..Len(p.locs) : May(k) THEN "maybe" ELSE "out"
\* what each parameter point does to the cell: [sure, may (values it may give)]
OverrideBy(s, p, loc, o, y, x, t, k) ==
  LET l == p.locs[k]
      nn == NearestOf(loc, l[1], l[2])
      r == Opt(o, "radius", 0)
      g == CG(s)
      Covers(j) == LET a == RowOf(g, j) + 1  b == ColOf(g, j) + 1 IN a > 1 /\ a < s.ny /\ b > 1 /\ b < s.nx /\ Abs(a - y) <= r /\ Abs(b - x) <= r
      med == Opt(o, "maxElevDiff", MV)
      high == CMissing(med) \/ (CValid(s.elevs[y][x]) /\ CValid(l[3]) /\ RF32(RAbs(s.elevs[y][x] (-) l[3])) \prec RF32(med))
      vs == {v[1] : v \in ParsFor(p, l, t)}
  IN [sure |-> high /\ (\A v \in vs : CValid(v)) /\ \A j \in nn : Covers(j), may |-> IF high /\ \E j \in nn : Covers(j) THEN {v \in vs : CValid(v)} ELSE {}]
WindowTimes(o, nt, t) ==
  LET n == Opt(o, "length", 7)  b == (n - 1) \div 2 IN
  IF Opt(o, "before", 0) = 1 THEN MaxIn({1, t - (n - 1)})..t ELSE MaxIn({1, t - b})..MinIn({nt, t + (n - b - 1)})
RECURSIVE RunSum(_, _, _)
RunSum(F, c, t) == IF t <= 1 THEN [x |-> 0, a |-> 0] ELSE LET r == RunSum(F, c, t - 1)  v == FVal(F[t], c) IN
                   IF IsNaN(r.x) \/ CMissing(v) THEN [x |-> RNaN, a |-> 0] ELSE [x |-> r.x (+) v, a |-> r.a (+) RAbs(v)]

\* out: the fields of the variable afterwards
PlainCellOk(in, s, p, F(_), x, c, t) ==
  LET o == in.opt
      f == F(VarName(in.v))
      old == FVal(f[t], c)
      Of(k) == FVal(F(o[k])[t], c)
      el == s.elevs[c[1]][c[2]]
      nt == NT(s)
      n == in.name
  IN
  CASE n = "threshold" -> IF CMissing(old) THEN CMissing(x) ELSE CSame(x, ThresholdTo(o, old))
    [] n = "qc" -> LET lo == Opt(o, "min", MV)  hi == Opt(o, "max", MV) IN
         IF CMissing(old) THEN CMissing(x) ELSE CSame(x, IF CValid(lo) /\ old \prec lo THEN lo ELSE IF CValid(hi) /\ hi \prec old THEN hi ELSE old)
    [] n = "cloud" -> LET pr == Of("precipVariable") IN CSame(x, IF CValid(pr) /\ CValid(old) /\ 0 \prec pr THEN RMax2(old, Opt(o, "value", 1)) ELSE old)
    [] n = "phase" -> LET T == Of("temperature")  pr == Of("precipitation") IN IF CMissing(T) \/ CMissing(pr) THEN CMissing(x) ELSE CValid(x) /\ \E k \in PhaseTo(o, T, pr) : REq(x, k)
    [] n = "diagnoseWind" ->
         LET a == Of(NeedVars(in)[1])  b == Of(NeedVars(in)[2]) IN
         IF NeedVars(in) = <<>> THEN CSame(x, old)
         ELSE IF CMissing(a) \/ CMissing(b) THEN CSame(x, old)
         ELSE IF o.compute = "x" THEN WindComponentOk(x, a, b, RSin(b (.) Deg))
         ELSE IF o.compute = "y" THEN WindComponentOk(x, a, b, RCos(b (.) Deg))
         ELSE IF o.compute = "speed" THEN WindSpeedOk(x, a, b)
         ELSE WindDirectionOk(x, a, b)
    [] n = "diagnoseHumidity" ->
         IF Len(NeedVars(in)) = 1 THEN CSame(x, old)
         ELSE LET a == Of(NeedVars(in)[1])  b == Of(NeedVars(in)[2]) IN
         IF CMissing(a) \/ CMissing(b) THEN CSame(x, old)
         ELSE IF o.compute = "dewpoint" THEN DewpointOk(Cv(x), a, b)
         ELSE IF o.compute = "rh" THEN HumidityOk(Cv(x), a, b)
         ELSE LET pr == IF "pressure" \in DOMAIN o THEN Of("pressure") ELSE IF CMissing(el) THEN MV ELSE RLit("101325") (.) RExp(RLit("-1.21e-4") (.) el) IN
              WetbulbOk(Cv(x), a, Cv(pr), b) \/ (CMissing(pr) /\ CSame(x, old))
    [] n = "qnh" -> LET pr == Of("pressureVariable") IN IF CMissing(pr) \/ CMissing(el) THEN CSame(x, old) ELSE QnhOk(Cv(x), pr, el)
    [] n = "sort" -> LET v == ValidOf(Cv1(f[t][c[1]][c[2]]))  k == c[3] IN IF k <= Len(v) THEN CValid(x) /\ REq(x, RSort(v)[k]) ELSE CMissing(x)
    [] n = "mask" -> LET w == MaskWithin(s, p, c[1], c[2], t - 1)  keep == Opt(o, "keep", 1) = 1 IN
         IF w = "maybe" THEN CMissing(x) \/ CSame(x, old) ELSE IF (w = "in") = keep THEN CSame(x, old) ELSE CMissing(x)
    [] n = "override" ->
         LET loc == Located(CG(s))
             by == Tab([k \in 1..Len(p.locs) |-> OverrideBy(s, p, loc, o, c[1], c[2], t - 1, k)])
         IN (\E k \in 1..Len(by) : \E v \in by[k].may : CSame(x, v)) \/ ((\A k \in 1..Len(by) : ~by[k].sure) /\ CSame(x, old))
    [] n = "window" ->
         LET ts == WindowTimes(o, nt, t)
             v == Tab([i \in 1..Cardinality(ts) |-> Cv(FVal(f[MinIn(ts) + i - 1], c))])
         IN IF Opt(o, "edgePolicy", "compute") = "missing" /\ Cardinality(ts) # Opt(o, "length", 7) THEN CMissing(x)
            ELSE IF Opt(o, "keepMissing", 0) = 1 /\ \E i \in 1..Len(v) : Missing(v[i]) THEN CMissing(x)
            ELSE CStatIs(x, o, v, 0)
    [] n = "accumulate" -> LET r == RunSum(f, c, t) IN IF IsNaN(r.x) THEN CMissing(x) ELSE CValid(x) /\ RNear(x, r.x, RLit("1e-7") (.) (t + 1) (.) r.a, 0)
    [] n = "deaccumulate" ->
         LET w == Opt(o, "window", 1) IN
         IF t - 1 < w THEN CMissing(x)
         ELSE LET a == FVal(f[t - w], c) IN IF CMissing(a) \/ CMissing(old) THEN CMissing(x) ELSE CValid(x) /\ RNear(x, old (-) a, RLit("1e-7") (.) (RAbs(a) (+) RAbs(old)), 0)
    [] n = "neighbourhood" ->
         LET v == Around(s, f[t], c, RadiusAt(in, p, t - 1))  w == ValidOf(v) IN
         IF Opt(o, "approx", 0) = 1 /\ Opt(o, "stat", "mean") \in {"median", "quantile"}
         THEN IF Len(w) = 0 THEN CMissing(x) ELSE CValid(x) /\ Within(x, RMinOf(w), RMaxOf(w))
         ELSE CStatIs(x, o, v, RLit("1e-12") (.) MemberMax(s, f[t], c[3]))
    [] n = "altitude" -> CSame(x, old)
    [] OTHER -> FALSE
AltitudeOk(s, p, elevs) ==
  Len(elevs) = s.ny /\ \A y \in 1..s.ny : Len(elevs[y]) = s.nx /\ \A x \in 1..s.nx :
    LET S == FoundAt(p, CellPlace(s, y, x), 0) IN IF S = {} THEN CMissing(elevs[y][x]) ELSE \E i \in S : CSame(elevs[y][x], p.locs[i][3])
SameElevs(a, b) == Len(a) = Len(b) /\ \A y \in 1..Len(b) : Len(a[y]) = Len(b[y]) /\ \A x \in 1..Len(b[y]) : CNear(a[y][x], b[y][x], 0, RLit("1.2e-7"))
\* a variable it needs is not in the file
NoInput(in, s) ==
  /\ in.name \in {"diagnoseWind", "diagnoseHumidity"}
  /\ LET need == NeedVars(in)
         names == {in.opt[need[i]] : i \in 1..Len(need)} \cup (IF in.name = "diagnoseHumidity" /\ in.opt.compute = "wetbulb" /\ "pressure" \in DOMAIN in.opt THEN {in.opt.pressure} ELSE {})
     IN Len(need) > 1 /\ \E k \in names \ {VarName(in.v)} : ~HasVar(s, k)
NoHeight(in, s) == in.name = "diagnoseHumidity" /\ in.opt.compute = "wetbulb" /\ "pressure" \notin DOMAIN in.opt /\ ~s.haselevs
UnknownCompute(in) == in.name \in {"diagnoseWind", "diagnoseHumidity"} /\ in.opt.compute \notin {"x", "y", "speed", "direction", "rh", "dewpoint", "wetbulb"}
PlainRunOk(fl, ps, e) ==
  LET in == e.in  s == fl[in.f]
      p == IF "p" \in DOMAIN in THEN ps[in.p] ELSE <<>>
      serves == IF "p" \in DOMAIN in THEN ParServes(in, p, NT(s)) ELSE "yes"
      before == [n \in Range1(in.look) |-> FieldsOf(s, n)]
      F(n) == IF n \in DOMAIN before THEN before[n] ELSE FieldsOf(s, n)
      v == VarName(in.v)
      Bad == CalBadOptions(in)
  IN IF in.name \notin PlainCals THEN IsErr(e)
     ELSE IF Bad \/ (~Bad /\ (serves = "no" \/ NoInput(in, s))) THEN IsErr(e)
     ELSE IF serves = "any" THEN IsErr(e) \/ IsOk(e)
     ELSE IF IsErr(e) THEN UnknownCompute(in) \/ NoHeight(in, s)
     ELSE /\ IsOk(e) /\ e.out.done = TRUE /\ DOMAIN e.out.fields = Range1(in.look)
          /\ \A n \in Range1(in.look) \ {v} : Len(e.out.fields[n]) = NT(s) /\ \A t \in 1..NT(s) : SameField(e.out.fields[n][t], F(n)[t])
          /\ Len(e.out.fields[v]) = NT(s) /\ \A t \in 1..NT(s) : SameShape(e.out.fields[v][t], MVField(s)) /\ \A c \in Cells(MVField(s)) : PlainCellOk(in, s, p, F, FVal(e.out.fields[v][t], c), c, t)
          /\ IF in.name = "altitude" THEN AltitudeOk(s, p, e.out.elevs) ELSE SameElevs(e.out.elevs, s.elevs)
RECURSIVE StoreNames(_, _, _)
StoreNames(s, names, x) == IF Len(names) = 0 THEN s ELSE StoreNames(StoreAll(s, names[1], x[names[1]], NT(s)), Tail(names), x)
CRunAfter(fl, e) ==
  LET in == e.in  s == StoreNames(fl[in.f], in.look, e.out.fields) IN
  With(fl, in.f, [s EXCEPT !.elevs = e.out.elevs, !.haselevs = @ \/ in.name \in {"altitude", "mask"}])
=============================================================================
