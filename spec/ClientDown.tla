------------------------------ MODULE ClientDown ------------------------------
(* Downscalers of the command-line program: from the fields of one file to   *)
(* those of another.  The result is checked and becomes the other file's     *)
(* fields.                                                                    *)
EXTENDS ClientOptions, ClientParams, ClientStore

Boxes(o) == (0..(OY(o) - 2)) \X (0..(OX(o) - 2))
CG(s) == [kind |-> "grid", type |-> "geo", lats |-> s.lats, lons |-> s.lons]
CellLat(o, k) == o.lats[RowOf(o, k) + 1][ColOf(o, k) + 1]
CellLon(o, k) == o.lons[RowOf(o, k) + 1][ColOf(o, k) + 1]
HasCoord(o, k) == CValid(CellLat(o, k)) /\ CValid(CellLon(o, k))
SameNumber(x, y) == (IsNaN(x) /\ IsNaN(y)) \/ REq(x, y)
IdenticalGrids(a, b) == OY(a) = OY(b) /\ OX(a) = OX(b) /\ \A k \in 1..Num(a) : REq(CellLat(a, k), CellLat(b, k)) /\ REq(CellLon(a, k), CellLon(b, k))
\* the cells with coordinates and where they are
Located(o) == LET ix == Tab(SelectSeq([k \in 1..Num(o) |-> k], LAMBDA k : HasCoord(o, k))) IN
              [ix |-> ix, pos |-> Tab([i \in 1..Len(ix) |-> Tab(XYZ("geo", CellLat(o, ix[i]), CellLon(o, ix[i])))])]
NearestOf(loc, lat, lon) == IF CValid(lat) /\ CValid(lon) THEN {loc.ix[i] : i \in NearestSet(DistsTo(loc.pos, XYZ("geo", lat, lon)), "geo")} ELSE {}
\* which cells of a may count as nearest to each cell of b; cells at the same places are their own
NearCellsOf(a, b) == IF IdenticalGrids(a, b) THEN [k \in 1..Num(b) |-> {k}]
                     ELSE LET loc == Located(a) IN [k \in 1..Num(b) |-> NearestOf(loc, CellLat(b, k), CellLon(b, k))]

\* ---- values ------------------------------------------------------------------------------------------
\* member e of a field, missing values as the library's
Slice(f, e) == Tab([y \in 1..Len(f) |-> Tab([x \in 1..Len(f[y]) |-> Cv(f[y][x][e])])])
CGridOf(g) == Tab([y \in 1..Len(g) |-> Tab([x \in 1..Len(g[y]) |-> Cv(g[y][x])])])
NoVal == <<RNaN, RNaN>>
\* where a value may come from: a nearest node, and a cell with its weights; a little beyond a distorted cell counts as within
OnAxes(q) == (REq(q[1][1], q[4][1]) /\ REq(q[2][1], q[3][1]) /\ REq(q[1][2], q[2][2]) /\ REq(q[3][2], q[4][2]))
             \/ (REq(q[1][2], q[4][2]) /\ REq(q[2][2], q[3][2]) /\ REq(q[1][1], q[2][1]) /\ REq(q[3][1], q[4][1]))
OnBorder(o, k) == RowOf(o, k) \in {0, OY(o) - 1} \/ ColOf(o, k) \in {0, OX(o) - 1}
Beyond(o, c, k, m) ==
  LET q == Quad(o, c[1], c[2])
      a == CellAlt(o, c, k, m)
      uv == Inverse(q, m, RNum(1, 2), RNum(1, 2), 8)
      u == uv[1]  v == uv[2]
      lim == RLit("0.0505")
  IN IF ~a.strict \/ (Within(u, RNeg(lim), RAdd(1, lim)) /\ Within(v, RNeg(lim), RAdd(1, lim))) THEN {a} ELSE {}
CBilinearAlts(o, nn, m) ==
  IF nn = {} THEN {}
  ELSE UNION {{CellAlt(o, c, k, m) : c \in {c \in CellsAt(o, k) : Side(Quad(o, c[1], c[2]), m) # "out"}} : k \in nn}
       \cup UNION {UNION {IF OnAxes(Quad(o, c[1], c[2])) THEN {} ELSE Beyond(o, c, k, m) : c \in CellsAt(o, k)} : k \in nn}
       \cup (IF OX(o) < 2 \/ OY(o) < 2 \/ MayMiss(o, nn, m) THEN {[nn |-> k, cell |-> <<>>] : k \in nn} ELSE {})
       \* at the border of a grid not along the axes a location may count as outside
       \cup {[nn |-> k, cell |-> <<>>] : k \in {k \in nn : OnBorder(o, k) /\ \E c \in CellsAt(o, k) : ~OnAxes(Quad(o, c[1], c[2]))}}
CAlts(bilinear, a, b, near, k) ==
  IF bilinear THEN CBilinearAlts(a, near[k], <<CellLat(b, k), CellLon(b, k)>>) ELSE {[nn |-> j, cell |-> <<>>] : j \in near[k]}
\* with a corner missing: the nearest node's value (node), or none
CValueOf(o, a, f, node) ==
  IF a.cell = <<>> THEN ValueOf(o, a, f)
  ELSE IF ~node /\ \E i \in 1..4 : Missing(ValAt(o, f, a.cell[i])) THEN NoVal
  ELSE ValueOf(o, a, f)

\* ---- gradients -----------------------------------------------------------------------------------------
BoxOf(o, k, r) == {j \in 1..Num(o) : Abs(RowOf(o, j) - RowOf(o, k)) <= r /\ Abs(ColOf(o, j) - ColOf(o, k)) <= r}
IHull(S) == <<RMinOf([i \in S |-> i[1]]), RMaxOf([i \in S |-> i[2]])>>
IClamp(i, lo, hi) == LET a == IF CValid(lo) THEN <<RMax2(i[1], lo), RMax2(i[2], lo)>> ELSE i IN IF CValid(hi) THEN <<RMin2(a[1], hi), RMin2(a[2], hi)>> ELSE a
\* the gradient by elevation around node k: an interval; g the member's values, el and la the elevations and land fractions
ElevGradient(o, k, opt, g, el, la) ==
  LET log == Opt(opt, "logTransform", 0) = 1
      Y(j) == LET y == ValAt(o, g, j) IN IF ~log \/ Missing(y) THEN y ELSE IF 0 \prec y THEN RLog(y) ELSE RNaN
      X(j) == ValAt(o, el, j)
      pts == {j \in BoxOf(o, k, Opt(opt, "elevRadius", 3)) : Valid(X(j)) /\ Valid(Y(j)) /\ (Missing(ValAt(o, la, j)) \/ Opt(opt, "minLafForElevGradient", 0) \preceq ValAt(o, la, j))}
      n == Cardinality(pts)
      xs == [j \in pts |-> X(j)]  ys == [j \in pts |-> Y(j)]
      default == LET d == Opt(opt, "defaultElevGradient", 0) IN <<d, d>>
      mx == RSum(xs) (/) n
      my == RSum(ys) (/) n
      sxy == RSum([j \in pts |-> (xs[j] (-) mx) (.) (ys[j] (-) my)]) (/) n
      sxx == RSum([j \in pts |-> (xs[j] (-) mx) (.) (xs[j] (-) mx)]) (/) n
      mxx == RSum([j \in pts |-> xs[j] (.) xs[j]]) (/) n
      axy == RSum([j \in pts |-> RAbs(xs[j] (.) ys[j])]) (/) n
      ax == RSum([j \in pts |-> RAbs(xs[j])]) (/) n
      ay == RSum([j \in pts |-> RAbs(ys[j])]) (/) n
      ed == RLit("1.5e-6") (.) mxx
      en == RLit("1.5e-6") (.) (axy (+) (ax (.) ay))
      low == sxx (-) ed
      slope == sxy (/) sxx
      t == (en (/) low) (+) ((RAbs(sxy) (.) ed) (/) (low (.) sxx)) (+) (RLit("1e-6") (.) RAbs(slope))
      const == Opt(opt, "constantElevGradient", MV)
      i == IF CValid(const) THEN <<const, const>>
           ELSE IF n = 0 \/ n < Opt(opt, "minNumPoints", 2) THEN default
           ELSE IF RF32(RMaxOf(xs) (-) RMinOf(xs)) \prec RF32(Opt(opt, "minElevDiff", 30)) \/ REq(RMaxOf(xs), RMinOf(xs)) THEN default
           \* elevations that differ little for their size: not determined
           ELSE IF low \preceq ed THEN <<RLit("-1e30"), RLit("1e30")>>
           ELSE <<slope (-) t, slope (+) t>>
  IN IClamp(i, Opt(opt, "minElevGradient", MV), Opt(opt, "maxElevGradient", MV))
\* the gradients by land fraction around node k: a set of intervals, NoVal for none; G the gradient by elevation
LafGradients(o, k, opt, f, el, la, G) ==
  LET radii == opt.lafSearchRadii
      w(r) == IF "lafWeights" \in DOMAIN opt THEN opt.lafWeights[r] ELSE RNum(1, Len(radii))
      Of(r) ==
        LET box == BoxOf(o, k, radii[r])
            vals == {j \in box : Valid(ValAt(o, f, j))}
            pts == {j \in vals : Valid(ValAt(o, la, j))}
            L(j) == ValAt(o, la, j)
            sea == Cardinality({j \in vals : Missing(L(j)) \/ L(j) \prec RNum(1, 2)})
            lo == RMinOf([j \in pts |-> L(j)])  hi == RMaxOf([j \in pts |-> L(j)])
            enough == RF32(Opt(opt, "minLafDiff", RLit("0.1"))) \preceq RF32(hi (-) lo) /\ RF32(Opt(opt, "minFracSeaPoints", 0)) \preceq RF32(RNum(sea, Cardinality(vals)))
            One(a, b) == IF Missing(ValAt(o, el, a)) \/ Missing(ValAt(o, el, b)) THEN NoVal
                         ELSE LET up == ValAt(o, f, b)  dn == ValAt(o, f, a)
                                  c == IMul(G, <<ValAt(o, el, b) (-) ValAt(o, el, a), ValAt(o, el, b) (-) ValAt(o, el, a)>>)
                                  r0 == RLit("4e-7") (.) (RAbs(up) (+) RAbs(dn) (+) RMax2(RAbs(c[1]), RAbs(c[2])))
                              IN <<((up (-) c[2] (-) dn) (-) r0) (/) (hi (-) lo), ((up (-) c[1] (-) dn) (+) r0) (/) (hi (-) lo)>>
        IN IF pts = {} THEN {NoVal} ELSE IF ~enough THEN {NoVal}
           ELSE {One(a, b) : a \in {j \in pts : REq(L(j), lo)}, b \in {j \in pts : REq(L(j), hi)}}
      RECURSIVE Choices(_)
      Choices(r) == IF r = 0 THEN {<<>>} ELSE {Append(c, i) : c \in Choices(r - 1), i \in Of(r)}
      Combine(c) == LET used == {r \in 1..Len(radii) : ~Miss2(c[r])} IN
                    IF used = {} THEN NoVal
                    ELSE LET tw == RSum([r \in used |-> w(r)])
                             lo == RSum([r \in used |-> RMul(w(r), c[r][1])]) (/) tw
                             hi == RSum([r \in used |-> RMul(w(r), c[r][2])]) (/) tw
                         IN IClamp(IWide(<<lo, hi>>), Opt(opt, "minLafGradient", MV), Opt(opt, "maxLafGradient", MV))
  IN {Combine(c) : c \in Choices(Len(radii))}
IExp(i) == <<RExp(RMin2(i[1], 80)), RExp(RMin2(i[2], 80))>>
\* x: the output; k its cell, alternative a; f, g the member's values and those the gradient is made of
GradientCellOk(x, A, B, k, a, opt, ov, f, g, el, la, oel, ola) ==
  LET v == CValueOf(A, a, f, FALSE) IN
  IF Miss2(v) THEN CMissing(x)
  ELSE
    LET G == ElevGradient(A, a.nn, opt, g, el, la)
        Ls == IF Len(Opt(opt, "lafSearchRadii", <<>>)) = 0 THEN {NoVal} ELSE LafGradients(A, a.nn, opt, f, el, la, G)
        save == Opt(opt, "saveGradient", "")
        be == CValueOf(A, a, el, TRUE)  bl == CValueOf(A, a, la, TRUE)
        oe == ValAt(B, oel, k)
        lr == Opt(opt, "lafRadius", 0)
        ol == IF lr = 0 THEN ValAt(B, ola, k)
              ELSE LET c == {j \in BoxOf(B, k, lr) : Valid(ValAt(B, ola, j))} IN IF c = {} THEN RNaN ELSE RSum([j \in c |-> ValAt(B, ola, j)]) (/) Cardinality(c)
        e1 == IF Missing(oe) \/ Miss2(be) THEN v
              ELSE IF Opt(opt, "logTransform", 0) = 1 THEN IWide(IWide(IMul(v, IWide(IWide(IExp(Correction(G, oe, be)))))))
              ELSE ISum(v, Correction(G, oe, be))
        olw == <<ol (-) RLit("2e-7"), ol (+) RLit("2e-7")>>
        Full(L) == IF Missing(ol) \/ Miss2(bl) \/ Miss2(L) THEN e1 ELSE ISum(e1, IWide(IMul(L, IF lr = 0 THEN ISub(ol, bl) ELSE IHull({ISub(olw[1], bl), ISub(olw[2], bl)}))))
        lo == Opt(ov, "min", MV)  hi == Opt(ov, "max", MV)
        SurelyOut(i) == (CValid(lo) /\ i[2] \prec lo) \/ (CValid(hi) /\ hi \prec i[1])
        MaybeOut(i) == (CValid(lo) /\ i[1] \prec lo) \/ (CValid(hi) /\ hi \prec i[2])
        Values(i) == IF SurelyOut(i) THEN {v} ELSE IF MaybeOut(i) THEN {i, v} ELSE {i}
        box == {j \in BoxOf(A, a.nn, Opt(opt, "elevRadius", 3)) : Valid(ValAt(A, f, j))}
        Limited(i) == IF Opt(opt, "limit", 0) = 1 /\ box # {} THEN IClamp(i, RMinOf([j \in box |-> ValAt(A, f, j)]), RMaxOf([j \in box |-> ValAt(A, f, j)])) ELSE i
    IN IF save = "elev" THEN InVal(Cv(x), IWide(G))
       ELSE IF save = "laf" THEN \E L \in Ls : InVal(Cv(x), L)
       \* beyond this nothing is promised
       ELSE \E L \in Ls : LET F0 == Full(L)  F == IF Opt(opt, "logTransform", 0) = 1 THEN <<F0[1] (-) RLit("1e-37"), F0[2] (+) RLit("1e-37")>> ELSE F0 IN ~(RAbs(F[1]) \preceq RLit("1e12") /\ RAbs(F[2]) \preceq RLit("1e12")) \/ \E i \in Values(F) : InVal(Cv(x), Limited(i))

\* ---- choices by elevation -----------------------------------------------------------------------------------
SmartCellOk(x, A, k, opt, f, el, oe) ==
  LET nnEl == ValAt(A, el, k)
      med == Opt(opt, "minElevDiff", MV)
      close == Valid(oe) /\ Valid(nnEl) /\ CValid(med) /\ RF32(RAbs(oe (-) nnEl)) \preceq RF32(med)
      box == BoxOf(A, k, Opt(opt, "radius", 3))
      N == MinIn({Cardinality(box), Opt(opt, "num", 5)})
      D(j) == IF Missing(ValAt(A, el, j)) THEN RLit("1e10") ELSE RF32(RAbs(ValAt(A, el, j) (-) oe))
      ds == Tab([j \in 1..Num(A) |-> IF j \in box THEN D(j) ELSE RLit("1e30")])
      nth == RSort([i \in 1..Cardinality(box) |-> ds[CHOOSE j \in box : Cardinality({m \in box : m < j}) = i - 1]])[N]
      less == {j \in box : ds[j] \prec nth}
      ties == {j \in box : REq(ds[j], nth)}
      V(j) == ValAt(A, f, j)
      MeanIs(S) == LET v == {j \in S : Valid(V(j))}  n == Cardinality(v) IN
                   IF n = 0 THEN CMissing(x) ELSE CValid(x) /\ RNear(x, RSum([j \in v |-> V(j)]) (/) n, RLit("1e-6") (.) (RSum([j \in v |-> RAbs(V(j))]) (/) n), 0)
      more == N - Cardinality(less)
  IN IF Missing(oe) \/ close THEN CSame(x, IF Missing(V(k)) THEN MV ELSE V(k))
     ELSE IF N <= 0 THEN CMissing(x)
     ELSE IF Cardinality(ties) = more THEN MeanIs(less \cup ties)
     ELSE IF Cardinality(ties) <= 10 THEN \E S \in SUBSET ties : Cardinality(S) = more /\ MeanIs(less \cup S)
     ELSE CMissing(x) \/ \E j \in box : Valid(V(j))

\* ---- the run ----------------------------------------------------------------------------------------------------
DownError(in) ==
  LET o == in.opt IN
  \/ in.name \notin DownNames
  \/ in.name = "gradient" /\ (Opt(o, "downscaler", "nearestNeighbour") \notin {"nearestNeighbour", "bilinear"}
                              \/ ("lafWeights" \in DOMAIN o /\ Len(o.lafWeights) # Len(Opt(o, "lafSearchRadii", <<>>))))
  \/ in.name = "smart" /\ "num" \in DOMAIN o /\ RLt(o.num, 1)
  \/ in.name = "upscale" /\ "stat" \in DOMAIN o /\ (o.stat \notin DOMAIN UStat \cup {"quantile"} \/ (o.stat = "quantile" /\ ("quantile" \notin DOMAIN o \/ CMissing(o.quantile) \/ BadLevel(o.quantile))))
VarName(v) == v.name
RECURSIVE ReadAll(_, _, _)
ReadAll(s, n, t) == IF t = 0 THEN s ELSE Read(ReadAll(s, n, t - 1), n, t - 1, FALSE)
\* the fields of n at all times
FieldsOf(s, n) == LET r == ReadAll(s, n, NT(s)) IN Tab([t \in 1..NT(s) |-> r.fs[n][t].f])
GradName(in) == Opt(in.opt, "elevGradientVariable", VarName(in.iv))
DRunOk(fl, e) ==
  LET in == e.in  F == fl[in.in]  T == fl[in.out]  opt == in.opt
      A == CG(F)  B == CG(T)
      ov == VarName(in.ov)
      Kept(s) == LET x == FieldsOf(s, ov) IN Len(e.out.fields) = NT(s) /\ \A t \in 1..NT(s) : SameField(e.out.fields[t], x[t])
      bil0 == in.name = "bilinear" \/ (in.name = "gradient" /\ Opt(opt, "downscaler", "") = "bilinear")
      \* a distorted cell may be refused
      refused == bil0 /\ IsErr(e) /\ \E c \in Boxes(A) : ~OnAxes(Quad(A, c[1], c[2]))
  IN IF DownError(in) THEN IsErr(e)
     ELSE IF refused THEN TRUE
     ELSE IF NT(F) # NT(T) THEN IsOk(e) /\ e.out.done = FALSE /\ Kept(T)
     ELSE IF in.name = "bypass" THEN IsOk(e) /\ e.out.done = TRUE /\ Kept(InitVar(T, ov))
     ELSE LET near == Tab(NearCellsOf(A, B))
              noplace == Located(A).ix = <<>> /\ ~IdenticalGrids(A, B)
          IN IF in.name # "upscale" /\ noplace THEN IsErr(e)
             ELSE IF in.name = "upscale" /\ Located(B).ix = <<>> THEN IsErr(e)
             ELSE
               LET fi == FieldsOf(F, VarName(in.iv))
                   fg == IF in.name = "gradient" THEN FieldsOf(F, GradName(in)) ELSE <<>>
                   el == CGridOf(F.elevs)  la == CGridOf(F.lafs)  oel == CGridOf(T.elevs)  ola == CGridOf(T.lafs)
                   bil == in.name = "bilinear" \/ (in.name = "gradient" /\ Opt(opt, "downscaler", "") = "bilinear")
                   alts == IF in.name = "upscale" THEN <<>> ELSE Tab([k \in 1..Num(B) |-> CAlts(bil, A, B, near, k)])
                   back == IF in.name # "upscale" THEN <<>> ELSE LET loc == Located(B) IN Tab([j \in 1..Num(A) |-> NearestOf(loc, CellLat(A, j), CellLon(A, j))])
                   stat == Opt(opt, "stat", "mean")
                   CellOk(x, k, t, m) ==
                     LET f == Slice(fi[t], m) IN
                     IF in.name = "upscale" THEN
                       LET sure == {j \in 1..Num(A) : back[j] = {k}}  maybe == {j \in 1..Num(A) : k \in back[j] /\ back[j] # {k}} IN
                       Cardinality(maybe) > 10 \/ \E M \in Sub(maybe) : LET v == Tab(ValuesOf([j \in 1..Num(A) |-> ValAt(A, f, j)], sure \cup M)) IN
                         IF stat = "quantile" THEN QuantileOk(Cv(x), v, opt.quantile) ELSE StatOk(Cv(x), UStat[stat], v, CTiny (.) Len(v) (.) MaxAbs(ValidOf(v)))
                     ELSE IF alts[k] = {} THEN CMissing(x)
                     ELSE \E a \in alts[k] :
                       CASE in.name \in {"nearestNeighbour", "bilinear"} -> InVal(Cv(x), CValueOf(A, a, f, FALSE))
                         [] in.name = "gradient" -> GradientCellOk(x, A, B, k, a, opt, in.ov, f, Slice(fg[t], m), el, la, oel, ola)
                         [] in.name = "pressure" ->
                              LET p == ValAt(A, f, a.nn)  d == ValAt(B, oel, k) (-) ValAt(A, el, a.nn) IN
                              IF Missing(p) THEN CMissing(x)
                              ELSE CNear(x, IF Missing(d) THEN p ELSE p (.) RExp(RLit("-1.21e-4") (.) d), 0, IF Missing(d) THEN 0 ELSE RLit("4e-6"))
                         [] in.name = "smart" -> SmartCellOk(x, A, a.nn, opt, f, el, ValAt(B, oel, k))
               IN /\ IsOk(e) /\ e.out.done = TRUE /\ Len(e.out.fields) = NT(T)
                  /\ \A t \in 1..NT(T) : SameShape(e.out.fields[t], MVField(T)) /\ \A c \in Cells(MVField(T)) : CellOk(e.out.fields[t][c[1]][c[2]][c[3]], IndexOf(B, c[1] - 1, c[2] - 1), t, c[3])
RECURSIVE StoreAll(_, _, _, _)
StoreAll(s, n, x, t) == IF t = 0 THEN s ELSE Store(StoreAll(s, n, x, t - 1), n, t - 1, x[t])
DRunAfter(fl, e) ==
  LET in == e.in  F == fl[in.in]  T == fl[in.out]
      run == NT(F) = NT(T) /\ in.name # "bypass"
      F1 == IF run THEN (IF in.name = "gradient" THEN ReadAll(ReadAll(F, VarName(in.iv), NT(F)), GradName(in), NT(F)) ELSE ReadAll(F, VarName(in.iv), NT(F))) ELSE F
      fl1 == With(fl, in.in, F1)
      T1 == fl1[in.out]
  IN With(fl1, in.out, StoreAll(T1, VarName(in.ov), e.out.fields, NT(T1)))
=============================================================================
