----------------------------- MODULE ClientSpatial -----------------------------
(* Calibrators of the command-line program that spread what is known at        *)
(* stations over the grid: kriging of biases, optimal interpolation of         *)
(* observations, and the regression along the coast.                           *)
EXTENDS ClientEnsCal, Assim

SpatialCals == {"kriging", "coastal", "oi"}
\* ---- distances, as <<least, most>> ------------------------------------------------
PiF == RF32(RLit("3.14159265"))
RadF(x) == RF32(RF32(x (.) PiF) (/) 180)
HasPlace(a) == CValid(a[1]) /\ CValid(a[2])
HasHeight(a) == CValid(a[3])
RadXYZ(a) == LET la == RadF(a[1])  lo == RadF(a[2]) IN <<RCos(la) (.) RCos(lo), RCos(la) (.) RSin(lo), RSin(la)>>
PlaceGap(a, b, approx) ==
  IF REq(a[1], b[1]) /\ REq(a[2], b[2]) THEN <<RNum(0, 1), RNum(0, 1)>>
  ELSE IF approx THEN
    LET la == RadF(a[1])  lb == RadF(b[1])  c == RCos((la (+) lb) (/) 2)  dx == c (.) (RadF(a[2]) (-) RadF(b[2]))  dy == la (-) lb
        d == RE (.) RSqrt((dx (.) dx) (+) (dy (.) dy))
    IN <<d (.) RLit("0.9999996"), d (.) RLit("1.0000004")>>
  ELSE LET d == RNum(2, 1) (.) RE (.) RAsin(RMin2(1, RDist(Tab(RadXYZ(a)), Tab(RadXYZ(b))) (/) 2))
           u == RLit("0.05") (+) (RLit("4e-7") (.) d)
       IN <<RMax2(0, d (-) u), d (+) u>>
Yes(o, k, d) == IF k \in DOMAIN o THEN REq(o[k], 1) ELSE d

\* ---- kriging -----------------------------------------------------------------------
KrigBad(in) ==
  LET o == in.opt IN
  \/ "p" \notin DOMAIN in
  \/ Opt(o, "efoldDist", 30000) \prec 0 \/ Opt(o, "radius", 30000) \prec 0
  \/ ("maxElevDiff" \in DOMAIN o /\ CValid(o.maxElevDiff) /\ o.maxElevDiff \prec 0)
  \/ Opt(o, "type", "cressman") \notin {"cressman", "barnes"}
  \/ Opt(o, "operator", "add") \notin {"add", "subtract", "multiply", "divide"}
  \/ ("auxVariable" \in DOMAIN o /\ ("range" \notin DOMAIN o \/ ("range" \in DOMAIN o /\ (Len(o.range) # 2 \/ (Len(o.range) = 2 /\ o.range[2] \prec o.range[1])))))
\* how a place covaries with another: the least and most it can be, and whether it is clear that they are within reach
KrigCov(o, a, b) ==
  LET E == RF32(Opt(o, "efoldDist", 30000))  R == RF32(Opt(o, "radius", 30000))
      lim == "maxElevDiff" \in DOMAIN o /\ CValid(o.maxElevDiff)
      H == RF32(Opt(o, "maxElevDiff", 1))
      barnes == Opt(o, "type", "cressman") = "barnes"
      g == PlaceGap(a, b, Yes(o, "approxDist", TRUE))
      v == RF32(RAbs(a[3] (-) b[3]))
      Shape(d, s) == IF barnes THEN RExp(RNeg((d (.) d) (/) (RNum(2, 1) (.) s (.) s)))
                     ELSE IF s \prec d THEN RNum(0, 1) ELSE ((s (.) s) (-) (d (.) d)) (/) ((s (.) s) (+) (d (.) d))
      V == IF lim THEN Shape(v, H) ELSE RNum(1, 1)
      u == RLit("6e-7")
  IN IF ~HasPlace(a) \/ ~HasPlace(b) \/ ~HasHeight(a) \/ ~HasHeight(b) THEN [lo |-> RNum(0, 1), hi |-> RNum(0, 1), clear |-> TRUE]
     ELSE IF lim /\ H \preceq v THEN [lo |-> RNum(0, 1), hi |-> RNum(0, 1), clear |-> TRUE]
     ELSE IF R \preceq g[1] THEN [lo |-> RNum(0, 1), hi |-> RNum(0, 1), clear |-> TRUE]
     ELSE IF R \preceq g[2] THEN [lo |-> RNum(0, 1), hi |-> RNum(1, 1), clear |-> FALSE]
     ELSE IF ~(0 \prec E) THEN [lo |-> RNum(0, 1), hi |-> RNum(1, 1), clear |-> FALSE]
     ELSE [lo |-> RMax2(0, (Shape(g[2], E) (.) V) (-) u), hi |-> (Shape(g[1], E) (.) V) (+) (IF barnes THEN u (.) (Shape(g[1], E) (.) V) ELSE IF E \prec g[1] THEN RNum(0, 1) ELSE u), clear |-> TRUE]
CovMid(c) == (c.lo (+) c.hi) (/) 2
CovErr(c) == ((c.hi (-) c.lo) (/) 2) (+) RLit("3e-7")
KrigFactor == RF32(RLit("0.828"))
\* the covariances among the stations, those of X taken for none
KrigMat(K, X) == LET n == Len(K) IN Tab([i \in 1..n |-> Tab([j \in 1..n |-> IF i = j THEN RNum(1, 1) ELSE IF i \in X \/ j \in X THEN RNum(0, 1) ELSE KrigFactor (.) CovMid(K[i][j])])])
KrigMatErr(K, X) == LET n == Len(K) IN Tab([i \in 1..n |-> Tab([j \in 1..n |-> (Eps (.) (4 * n)) (+) IF i = j \/ i \in X \/ j \in X THEN RNum(0, 1) ELSE CovErr(K[i][j])])])
\* the weights at a cell whose covariances are S, as what Solve gives, for each station that may be left out
KrigGains(o, K, S) ==
  LET n == Len(S)
      far == \A j \in 1..n : ~(0 \prec S[j].hi)
      nearest == {j \in 1..n : 0 \prec S[j].hi /\ \A k \in 1..n : S[k].lo \preceq S[j].hi}
      G(X) == Solve(Tab([j \in 1..n |-> IF j \in X THEN RNum(0, 1) ELSE CovMid(S[j])]), Tab([j \in 1..n |-> IF j \in X \/ ~(0 \prec S[j].hi) THEN RNum(0, 1) ELSE CovErr(S[j])]), KrigMat(K, X), KrigMatErr(K, X))
  IN IF far THEN {} ELSE IF Yes(o, "crossValidate", FALSE) THEN {G({j}) : j \in nearest} ELSE {G({})}
\* how much a member's correction counts where another variable matters
AuxWeight(o, F(_), c, t, nt) ==
  LET w == Opt(o, "window", 0)
      lo == RF32(o.range[1])  hi == RF32(o.range[2])
      v == Tab([i \in 1..(MinIn({nt, t + w}) - MaxIn({1, t - w}) + 1) |-> FVal(F(o.auxVariable)[MaxIn({1, t - w}) + i - 1], c)])
      valid == {i \in 1..Len(v) : CValid(v[i])}
  IN IF valid = {} THEN RNum(1, 1) ELSE RF32(RNum(Cardinality({i \in valid : lo \preceq v[i] /\ v[i] \preceq hi}), Cardinality(valid)))
\* x: what becomes of raw with the correction b (off by err), weighted by w
KrigTo(op, x, raw, b, err, w) ==
  IF op \in {"add", "subtract"} THEN RNear(x, raw (+) ((IF op = "add" THEN b ELSE RNeg(b)) (.) w), (err (.) w) (+) (Eps (.) 2 (.) (RAbs(raw) (+) RAbs(b))) (+) Tiny, Eps)
  ELSE LET m == 1 (+) b  u == err (+) (Eps (.) 2 (.) (1 (+) RAbs(b)))  lo == m (-) u  hi == m (+) u
           P(y) == IF REq(w, 0) THEN RNum(1, 1) ELSE IF REq(w, 1) THEN y ELSE RPow(y, w)
           slack == RAbs(raw) (.) Eps (.) 4
           between == RLit("1e-3") \prec RAbs(m) /\ u \prec (RAbs(m) (/) 4)
       IN IF ~(0 \prec lo) /\ ~REq(w, 0) /\ ~REq(w, 1) THEN TRUE
          ELSE IF op = "multiply" THEN RNear(x, raw (.) P(m), (RAbs(raw) (.) (RAbs(P(hi) (-) P(lo)) (+) (Eps (.) 4 (.) RAbs(P(m))))) (+) Tiny, Eps)
          ELSE ~between \/ RNear(x, raw (/) P(m), (RAbs(raw) (.) (RAbs((1 (/) P(hi)) (-) (1 (/) P(lo))) (+) ((Eps (.) 4) (/) RAbs(P(m))))) (+) Tiny, Eps)
KrigingOk(in, s, p, F(_), out) ==
  LET o == in.opt  n == Len(p.locs)  v == VarName(in.v)
      op == Opt(o, "operator", "add")
      nt == NT(s)
      K == Tab([i \in 1..n |-> Tab([j \in 1..n |-> KrigCov(o, p.locs[i], p.locs[j])])])
      unclear == \E i \in 1..n, j \in 1..n : i # j /\ ~K[i][j].clear
      S == Tab([y \in 1..s.ny |-> Tab([x \in 1..s.nx |-> Tab([j \in 1..n |-> KrigCov(o, p.locs[j], CellPlace(s, y, x))])])])
      Bias(t) == Tab([j \in 1..n |-> LET q == ParAt(p, j, TimeOf(p, p.cyc, t - 1)) IN
                        IF Len(q) = 0 THEN RNum(0, 1) ELSE IF CMissing(q[1]) THEN q[1] ELSE IF op \in {"multiply", "divide"} THEN RF32(q[1] (-) 1) ELSE q[1]])
  IN unclear \/ LET B == Tab([t \in 1..nt |-> Bias(t)]) IN \A y \in 1..s.ny, x \in 1..s.nx :
       LET G == KrigGains(o, K, S[y][x])  foggy == \E j \in 1..n : ~S[y][x][j].clear IN
       foggy \/ IF G = {} THEN \A t \in 1..nt, m \in 1..s.ne : CSame(out[t][y][x][m], F(v)[t][y][x][m])
       ELSE \E g \in G : ~g.known \/ \A t \in 1..nt :
         LET gone == \E j \in 1..n : CMissing(B[t][j])
             b == Apply(g, B[t])
             pe == IF op \in {"multiply", "divide"} THEN RLit("1e-6") ELSE RNum(0, 1)
             err == ApplyErr(g, B[t], Tab([j \in 1..n |-> ((p.rel (+) Eps) (.) (RAbs(B[t][j]) (+) (IF op \in {"multiply", "divide"} THEN 1 ELSE 0)))])) (+) (Eps (.) (2 * n + 4) (.) RDot(g.z, Tab([j \in 1..n |-> RAbs(B[t][j])])))
         IN \A m \in 1..s.ne :
              LET raw == F(v)[t][y][x][m]  z == out[t][y][x][m] IN
              IF gone \/ CMissing(raw) THEN CSame(z, raw)
              ELSE KrigTo(op, z, raw, b, err, IF "auxVariable" \in DOMAIN o THEN AuxWeight(o, F, <<y, x, m>>, t, nt) ELSE RNum(1, 1))

\* ---- along the coast ------------------------------------------------------------------
CoastBox(s, y, x, r) ==
  LET ys == MaxIn({1, y - r})..MinIn({s.ny, y + r})  xs == MaxIn({1, x - r})..MinIn({s.nx, x + r})  w == Cardinality(xs)
      all == [i \in 1..(Cardinality(ys) * w) |-> <<MinIn(ys) + ((i - 1) \div w), MinIn(xs) + ((i - 1) % w)>>]
  IN Tab(SelectSeq(all, LAMBDA c : CValid(s.lafs[c[1]][c[2]])))
CoastalTo(z, o, s, f, c, w) ==
  LET B == CoastBox(s, c[1], c[2], Opt(o, "searchRadius", 3))
      L(k) == s.lafs[B[k][1]][B[k][2]]
      first(S) == CHOOSE k \in S : \A j \in S : k <= j
      lowest == first({k \in 1..Len(B) : \A j \in 1..Len(B) : L(k) \preceq L(j)})
      highest == first({k \in 1..Len(B) : \A j \in 1..Len(B) : L(j) \preceq L(k)})
      At(k) == f[B[k][1]][B[k][2]][c[3]]
      none == Len(B) = 0
      lower == IF none THEN MV ELSE At(lowest)
      gap == RF32(L(highest) (-) L(lowest))
      slope == IF none THEN RNum(0, 1) ELSE IF CMissing(lower) \/ CMissing(At(highest)) \/ ~(RF32(Opt(o, "minLafDiff", RNum(1, 10))) \prec gap) THEN RNum(0, 1)
               ELSE (At(highest) (-) lower) (/) gap
      big == IF REq(slope, 0) THEN RNum(0, 1) ELSE ((RAbs(At(highest)) (+) RAbs(lower)) (/) gap)
      base == IF Yes(o, "useNN", FALSE) THEN FVal(f, c) ELSE lower
  IN IF CMissing(w[1]) \/ CMissing(w[2]) \/ CMissing(w[3]) \/ CMissing(base) THEN CMissing(z)
     ELSE RNear(z, w[1] (+) (w[2] (.) base) (+) (w[3] (.) slope), (RLit("5e-7") (.) (RAbs(w[1]) (+) RAbs(w[2] (.) base) (+) RAbs(w[3] (.) slope))) (+) (RLit("1e-6") (.) RAbs(w[3]) (.) RAbs(slope)) (+) (RAbs(w[3]) (.) Eps (.) RNum(1, 10) (.) big) (+) Tiny, Eps)

\* ---- optimal interpolation ---------------------------------------------------------------
OiCovered(in) == DOMAIN in.opt \subseteq {"d", "h", "w", "maxLocations", "sigma", "delta", "epsilon", "minRho", "elevGradient", "useEns", "minEns", "extrapolate", "wmin", "crossValidate", "landOnly", "maxElevDiff", "rhoType", "transform", "lambda", "x", "y", "sigmaC", "dc", "epsilonC"}
OptV(o, k, d) == RF32(Opt(o, k, d))
\* the correlation of two places <<lat, lon, elevation, land fraction>>
OiRho(o, a, b) ==
  LET g == PlaceGap(a, b, TRUE)  D == OptV(o, "d", 30000)  h == OptV(o, "h", 100)  w == OptV(o, "w", RLit("0.2"))  wm == OptV(o, "wmin", MV)
      soar == Opt(o, "rhoType", "gaussian") = "soar"
      Shape(d) == LET q == d (/) D IN IF soar THEN (1 (+) q) (.) RExp(RNeg(q)) ELSE RExp((q (.) q) (/) RNeg(2))
      v == RF32(a[3] (-) b[3]) (/) h
      l == IF CValid(a[4]) /\ CValid(b[4]) THEN RF32(a[4] (-) b[4]) ELSE RNum(0, 1)
      f == (IF CValid(h) THEN RExp((v (.) v) (/) RNeg(2)) ELSE RNum(1, 1))
           (.) (IF CValid(wm) THEN 1 (-) ((1 (-) wm) (.) RAbs(l)) ELSE RNum(1, 1))
           (.) (IF CValid(w) THEN RExp((l (.) l) (/) (RNeg(2) (.) w (.) w)) ELSE RNum(1, 1))
  IN IF ~HasPlace(a) \/ ~HasPlace(b) \/ (CValid(h) /\ (~HasHeight(a) \/ ~HasHeight(b))) THEN Zero
     ELSE <<RMax2(0, Shape(g[2]) (.) f (.) RLit("0.999998")), Shape(g[1]) (.) f (.) RLit("1.000002")>>
\* amounts in the transformed space (the power transform of Box and Cox)
OiPower(o) == OptV(o, "lambda", RNum(1, 2))
OiTo(o, z) == IF CMissing(z) THEN z ELSE ((IF z \preceq 0 THEN RNum(0, 1) ELSE RPow(z, OiPower(o))) (-) 1) (/) OiPower(o)
CellPlace4(s, y, x) == <<s.lats[y][x], s.lons[y][x], s.elevs[y][x], s.lafs[y][x]>>
OiRunOk(in, s, p, F(_), out) ==
  LET o == in.opt  n == Len(p.locs)  v == VarName(in.v)  nt == NT(s)
      G == CG(s)  loc == Located(G)
      cand == Tab([i \in 1..n |-> NearestOf(loc, p.locs[i][1], p.locs[i][2])])
      lost == {i \in 1..n : ~HasPlace(p.locs[i])}
      certain == \A i \in (1..n) \ lost : Cardinality(cand[i]) = 1
      Cell(i) == LET k == CHOOSE k \in cand[i] : TRUE IN <<RowOf(G, k) + 1, ColOf(G, k) + 1>>
      at == Tab([i \in 1..n |-> IF i \in lost THEN <<1, 1>> ELSE Cell(i)])
      regular == s.ny > 1 /\ s.nx > 1 /\ HasPlace(CellPlace(s, 1, 1)) /\ HasPlace(CellPlace(s, 2, 1))
      par == Tab([i \in 1..n |-> ParAt(p, i, 0)])
      ci == Tab([i \in 1..n |-> IF Len(par[i]) = 2 THEN par[i][2] ELSE RNum(1, 1)])
      medv == OptV(o, "maxElevDiff", 200)
      Height(i) == p.locs[i][3]  GroundAt(i) == s.elevs[at[i][1]][at[i][2]]
      usable(i) ==
        /\ i \notin lost /\ CValid(par[i][1])
        /\ regular => at[i][1] > 1 /\ at[i][1] < s.ny /\ at[i][2] > 1 /\ at[i][2] < s.nx
        /\ CValid(medv) => CValid(Height(i)) /\ CValid(GroundAt(i)) /\ RF32(RAbs(Height(i) (-) GroundAt(i))) \prec medv
        /\ ~(Yes(o, "landOnly", FALSE) /\ REq(s.lafs[at[i][1]][at[i][2]], 0))
      U == {i \in 1..n : usable(i)}
      place == Tab([i \in 1..n |-> p.locs[i] \o <<s.lafs[at[i][1]][at[i][2]]>>])
      minrho == OptV(o, "minRho", RLit("0.0013"))
      reach == RSqrt(RLog(minrho) (.) RNeg(2)) (.) OptV(o, "d", 30000)
      \* cells that a station reaches: [sure, may]
      spacing == PlaceGap(CellPlace(s, 1, 1), CellPlace(s, 2, 1), FALSE)
      steps(k) == RFloor((reach (.) (IF k = 1 THEN RLit("0.99999") ELSE RLit("1.00001"))) (/) spacing[3 - k])
      Within1(i, y, x, k) ==
        IF regular THEN LET r == steps(k)  dy == y - at[i][1]  dx == x - at[i][2] IN 0 - r <= dy /\ dy < r /\ 0 - r <= dx /\ dx < r
        ELSE HasPlace(CellPlace(s, y, x)) /\ LET g == PlaceGap(p.locs[i], CellPlace(s, y, x), TRUE) IN g[3 - k] \prec (reach (.) (IF k = 1 THEN RLit("0.99999") ELSE RLit("1.00001")))
      corr == Tab([i \in 1..n |-> Tab([j \in 1..n |-> OiRho(o, place[i], place[j])])])
      nmax == Opt(o, "maxLocations", 20)
      eps2 == OptV(o, "epsilon", RNum(1, 2)) (.) OptV(o, "epsilon", RNum(1, 2))
      extrap == Yes(o, "extrapolate", FALSE)
      bc == Opt(o, "transform", "none") = "boxcox"
      bump == IF bc THEN 1 (/) OiPower(o) ELSE RNum(0, 1)
      One(y, x) ==
        LET rho == Tab([i \in 1..n |-> IF i \in U THEN OiRho(o, place[i], CellPlace4(s, y, x)) ELSE Zero])
            cut(i) == minrho \prec rho[i][1] /\ Within1(i, y, x, 1)
            may(i) == minrho \prec rho[i][2] /\ Within1(i, y, x, 2)
            A == {i \in U : cut(i)}
            foggy == \E i \in U : may(i) /\ ~cut(i)
            best == {i \in A : \A j \in A : rho[j][1] \preceq rho[i][2]}
            pools == IF Yes(o, "crossValidate", FALSE) /\ A # {} THEN {A \ {i} : i \in best} ELSE {A}
            picks == UNION {IF Cardinality(T) <= nmax THEN {T} ELSE Best(T, rho, nmax) : T \in pools}
        IN IF foggy THEN {} ELSE {[unknown |-> FALSE, ix |-> Ascending(T, n), rho |-> rho] : T \in picks}
      sel == Tab([y \in 1..s.ny |-> Tab([x \in 1..s.nx |-> One(y, x)])])
      \* at one time
      TimeOk(t) ==
        LET f0 == F(v)[t]
            f == IF bc THEN Tab([y \in 1..s.ny |-> Tab([x \in 1..s.nx |-> Tab([m \in 1..s.ne |-> OiTo(o, f0[y][x][m])])])]) ELSE f0
            Got(y, x, m) == IF bc THEN OiTo(o, out[t][y][x][m]) ELSE out[t][y][x][m]
            \* a value that nothing changes
            Kept(y, x, m) == IF ~bc \/ CMissing(f[y][x][m]) THEN CSame(out[t][y][x][m], f0[y][x][m])
                             ELSE ~CMissing(out[t][y][x][m]) /\ 0 \preceq out[t][y][x][m] /\ RNear(Got(y, x, m), f[y][x][m], Eps (.) 8 (.) (bump (+) RAbs(f[y][x][m])), 0)
            ens == Ascending({m \in 1..s.ne : \A y \in 1..s.ny, x \in 1..s.nx : CValid(f[y][x][m])}, s.ne)
            nv == Len(ens)
            single == ~Yes(o, "useEns", TRUE) \/ nv < Opt(o, "minEns", 5)
            eg == OptV(o, "elevGradient", MV)
            up(i) == IF CValid(eg) /\ CValid(Height(i)) /\ CValid(GroundAt(i)) THEN eg (.) (Height(i) (-) GroundAt(i)) ELSE RNum(0, 1)
            Y == Tab([i \in 1..n |-> Tab([k \in 1..nv |-> RF32(f[at[i][1]][at[i][2]][ens[k]] (+) up(i))])])
            obs(i) == IF bc THEN OiTo(o, par[i][1]) ELSE par[i][1]
            rel == p.rel (+) Eps
            de(i) == (rel (.) 3 (.) (RAbs(obs(i)) (+) bump)) (+) (Eps (.) 4 (.) (RAbs(up(i)) (+) MaxAbs(Y[i]) (+) bump))
            SingleOk(q, y, x) ==
              LET m == Len(q.ix)
                  D == Tab([i \in 1..n |-> eps2 (.) ci[i]])
                  g == GainOf(q, corr, D, Ones1(n), Ones2(n))
              IN ~g.known \/ \A k \in 1..nv :
                   LET d == Tab([j \in 1..m |-> obs(q.ix[j]) (-) Y[q.ix[j]][k]])
                       err == ApplyErr(g, d, Tab([j \in 1..m |-> de(q.ix[j])]))
                       raw == f[y][x][ens[k]]
                       inc == Apply(g, d)
                   IN RNear(out[t][y][x][ens[k]], raw (+) inc, err (+) (Eps (.) 3 (.) (RAbs(raw) (+) RAbs(inc))) (+) Tiny, Eps)
            EnsembleOk(q, y, x) ==
              LET m == Len(q.ix)  K(j) == q.ix[j]
                  sg == OptV(o, "sigma", 1) (.) OptV(o, "sigma", 1)
                  row == Tab([k \in 1..nv |-> f[y][x][ens[k]]])
                  rinv == Tab([j \in 1..m |-> Mid(q.rho[K(j)]) (/) (sg (.) ci[K(j)])])
                  re == Tab([j \in 1..m |-> (Half(q.rho[K(j)]) (+) (Eps (.) 4 (.) q.rho[K(j)][2])) (/) (sg (.) ci[K(j)])])
                  T == Transform(Tab([j \in 1..m |-> Anomalies(Y[K(j)])]), Tab([j \in 1..m |-> (Eps (.) 8 (.) MaxAbs(Y[K(j)])) (+) de(K(j))]), rinv, re,
                                 Tab([j \in 1..m |-> obs(K(j)) (-) Mean(Y[K(j)])]), Tab([j \in 1..m |-> (Eps (.) 8 (.) MaxAbs(Y[K(j)])) (+) de(K(j))]), nv, (nv - 1) (/) OptV(o, "delta", 1))
                  X == Anomalies(row)
                  Inc2(k) == RSum([j \in 1..nv |-> X[j] (.) (T.S[j][k] (+) T.w[j])])
                  err == (SumAbs(X) (.) (T.Se (+) T.we (+) RLit("1e-9"))) (+) ((MeanErr(row) (+) (Eps (.) 4 (.) bump)) (.) (2 (+) SumAbs(T.w) (+) RSqrt(nv (.) OptV(o, "delta", 1)))) (+) (Eps (.) (nv + 5) (.) RSum([j \in 1..nv |-> RAbs(X[j]) (.) (1 (+) RAbs(T.w[j]))]))
                                size == (4 (.) bump) (+) MaxAbs(row) (+) RMaxOf([j \in 1..m |-> MaxAbs(Y[K(j)]) (+) RAbs(obs(K(j)))])
                  Gap(k) == Tab([j \in 1..m |-> obs(K(j)) (-) Y[K(j)][k]])
                  \* below what amounts can be
                  Below(k) == bc /\ REq(out[t][y][x][ens[k]], 0)
                              /\ \E z \in {Mean(row) (+) Inc2(k)} \cup (IF extrap THEN {} ELSE {row[k], row[k] (+) RMaxOf(Gap(k)), row[k] (+) RMinOf(Gap(k))}) :
                                   z \preceq (RNeg(bump) (+) err (+) (Eps (.) 8 (.) (size (+) RAbs(z))))
              IN ~T.known \/ \A k \in 1..nv : Below(k) \/ MemberOk(Got(y, x, ens[k]), row[k], Mean(row), Inc2(k), err, Gap(k), extrap, size)
            \* what a single member becomes in the transformed space is not said
        IN (bc /\ single) \/ \A y \in 1..s.ny, x \in 1..s.nx :
             sel[y][x] = {} \/ \E q \in sel[y][x] :
               IF Len(q.ix) = 0 THEN \A m \in 1..s.ne : Kept(y, x, m)
               ELSE /\ \A m \in 1..s.ne : (\A k \in 1..nv : ens[k] # m) => CMissing(out[t][y][x][m]) \/ Kept(y, x, m)
                    /\ IF nv = 0 THEN TRUE ELSE IF single THEN SingleOk(q, y, x) ELSE EnsembleOk(q, y, x)
      odd == \E i \in 1..n : Len(par[i]) = 0 \/ CMissing(ci[i]) \/ ci[i] \preceq 0
  IN odd \/ ~certain \/ \A t \in 1..nt : TimeOk(t)

\* ---- all three ---------------------------------------------------------------------------
NoCellComplete(s) == \A y \in 1..s.ny, x \in 1..s.nx : ~HasPlace(CellPlace(s, y, x)) \/ ~HasHeight(CellPlace(s, y, x))
SpatialBad(in, s, p) ==
  CASE in.name = "kriging" -> KrigBad(in) \/ (~NoCellComplete(s) /\ "p" \in DOMAIN in /\ (~ByPlace(p) \/ AnyTimeBad(p, NT(s))))
    [] in.name = "coastal" -> "p" \notin DOMAIN in \/ ~ByPlace(p) \/ AnyTimeBad(p, NT(s)) \/ (~Holes(p) /\ NumParsOf(p) \in {0, 1, 2})
    [] OTHER -> "p" \notin DOMAIN in \/ Opt(in.opt, "rhoType", "gaussian") \notin {"gaussian", "soar"} \/ Opt(in.opt, "transform", "none") \notin {"none", "boxcox"} \/ (~NoCellComplete(s) /\ "p" \in DOMAIN in /\ ~Holes(p) /\ NumParsOf(p) \notin {MV, 0, 1, 2, 3})
\* what is not said: sets of differing sizes, or none
SpatialAny(in, p) ==
  IF in.name = "kriging" THEN FALSE ELSE IF in.name = "coastal" THEN Holes(p) \/ NumParsOf(p) = MV ELSE Len(p.locs) = 0 \/ Holes(p) \/ NumParsOf(p) \notin {1, 2} \/ ~OiCovered(in)
SpatialRunOk(fl, ps, e) ==
  LET in == e.in  s == fl[in.f]
      p == IF "p" \in DOMAIN in THEN ps[in.p] ELSE <<>>
      before == [n \in Range1(in.look) |-> FieldsOf(s, n)]
      F(n) == IF n \in DOMAIN before THEN before[n] ELSE FieldsOf(s, n)
      v == VarName(in.v)
      out == e.out.fields
      idle == in.name \in {"kriging", "oi"} /\ NoCellComplete(s)
  IN IF SpatialBad(in, s, p) THEN IsErr(e)
     ELSE IF ~idle /\ SpatialAny(in, p) THEN IsErr(e) \/ IsOk(e)
     ELSE /\ IsOk(e) /\ e.out.done = ~idle /\ DOMAIN out = Range1(in.look) /\ SameElevs(e.out.elevs, s.elevs)
          /\ \A n \in Range1(in.look) : Len(out[n]) = NT(s) /\ \A t \in 1..NT(s) : SameShape(out[n][t], MVField(s))
          /\ \A n \in Range1(in.look) \ {v} : \A t \in 1..NT(s) : SameField(out[n][t], F(n)[t])
          /\ IF idle THEN \A t \in 1..NT(s) : SameField(out[v][t], F(v)[t])
             ELSE CASE in.name = "kriging" -> KrigingOk(in, s, p, F, out[v])
                    [] in.name = "coastal" -> \A t \in 1..NT(s) : \A c \in Cells(MVField(s)) :
                         \E w \in ParsFor(p, CellPlace(s, c[1], c[2]), t - 1) : Len(w) < 3 \/ CoastalTo(FVal(out[v][t], c), in.opt, s, F(v)[t], c, w)
                    [] OTHER -> OiRunOk(in, s, p, F, out[v])
CRunOk(fl, ps, e) == IF e.in.name \in SpatialCals THEN SpatialRunOk(fl, ps, e) ELSE IF e.in.name \in ParCals THEN ParRunOk(fl, ps, e) ELSE PlainRunOk(fl, ps, e)
=============================================================================
