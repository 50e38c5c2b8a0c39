------------------------------ MODULE ClientEnsCal ------------------------------
(* Calibrators of the command-line program that apply coefficients from a      *)
(* parameter file: member by member (regression, quantile mapping, wind         *)
(* direction) or to a whole ensemble, whose members then keep their ranks       *)
(* (gaussian, zaga, bct).                                                        *)
EXTENDS ClientCalib

MemberCals == {"regression", "qq", "windDirection"}
EnsembleCals == {"gaussian", "zaga", "bct"}
ParCals == MemberCals \cup EnsembleCals
\* the number of coefficients where all sets have as many (MV where they differ, 0 where there are none); some sets may not be there
NumParsOf(p) == LET S == SetSizesAt(p) \ {0} IN IF S = {} THEN 0 ELSE IF Cardinality(S) = 1 THEN MaxIn(S) ELSE MV
Holes(p) == 0 \in SetSizesAt(p)
AnyMissing(v) == \E i \in 1..Len(v) : CMissing(v[i])
AnyTimeBad(p, nt) == \E t \in 0..(nt - 1) : ParBadTime(p, p.cyc, t)

QqExtras(o) == IF "extraObs" \in DOMAIN o THEN Len(o.extraObs) ELSE 0
ParBadOptions(in) ==
  LET o == in.opt IN
  \/ "p" \notin DOMAIN in
  \/ in.name = "windDirection" /\ "directionVariable" \notin DOMAIN o
  \/ in.name = "qq" /\ (Opt(o, "extrapolation", "1to1") \notin {"1to1", "meanSlope", "nearestSlope", "zero"} \/ Len(Opt(o, "extraObs", <<>>)) # Len(Opt(o, "extraFcst", <<>>)))
  \/ in.name \in {"gaussian", "zaga"} /\ Opt(o, "neighbourhoodSize", 0) < 0
  \/ in.name = "zaga" /\ "maxEnsMean" \in DOMAIN o /\ o.maxEnsMean \preceq 0
\* the parameters do not serve: "no", "any", "yes"
ParsServe(in, p, nt) ==
  LET n == NumParsOf(p)
      odd == IF Holes(p) THEN "any" ELSE "no"   \* not counted reliably where some sets are missing
  IN
  IF Len(p.locs) = 0 THEN IF in.name \in EnsembleCals \/ (in.name = "qq" /\ QqExtras(in.opt) > 0) THEN "any" ELSE "no"
  ELSE IF AnyTimeBad(p, nt) THEN "no"
  ELSE IF in.name = "windDirection" THEN IF n # 9 THEN odd ELSE "yes"
  ELSE IF in.name = "regression" THEN IF n = 0 \/ ("variables" \in DOMAIN in.opt /\ n # Len(in.opt.variables)) THEN odd ELSE "yes"
  ELSE IF in.name = "qq" THEN IF n = MV \/ n % 2 # 0 \/ (n = 0 /\ QqExtras(in.opt) = 0) THEN odd ELSE IF n = 0 THEN "any" ELSE "yes"
  ELSE IF n >= (IF in.name = "gaussian" THEN 2 ELSE IF in.name = "zaga" THEN 8 ELSE 7) THEN "yes"
  ELSE "few"

\* ---- one member -------------------------------------------------------------
WindFactorTerms(v, dir) ==
  LET a == dir (.) Deg IN
  Tab([k \in 1..9 |-> IF k = 1 THEN v[1] ELSE v[k] (.) (IF k % 2 = 0 THEN RSin(a (.) (k \div 2)) ELSE RCos(a (.) (k \div 2)))])
WindFactorOk(x, v, dir, sp) ==
  LET f == RMax2(0, RSum(WindFactorTerms(v, dir)))
      tol == Eps (.) 12 (.) RSum([k \in 1..9 |-> RAbs(v[k]) (.) (1 (+) (RAbs(dir) (/) 40))])
  IN CValid(x) /\ RNear(x, f (.) sp, (tol (.) RAbs(sp)) (+) Tiny, Eps)
RegressionTerms(v, F(_), o, n, c, t, old) ==
  IF "variables" \in DOMAIN o THEN Tab([k \in 1..Len(v) |-> IF o.variables[k] = "1" THEN v[k] ELSE v[k] (.) FVal(F(o.variables[k])[t], c)])
  ELSE Tab([k \in 1..Len(v) |-> IF k = 1 THEN v[1] ELSE v[k] (.) RPow(old, k - 1)])
RegressionOk(x, v, F(_), o, n, c, t, old) ==
  IF AnyMissing(v) \/ ("variables" \in DOMAIN o /\ \E k \in 1..Len(v) : o.variables[k] # "1" /\ CMissing(FVal(F(o.variables[k])[t], c))) THEN CMissing(x)
  ELSE LET a == RegressionTerms(v, F, o, n, c, t, old) IN RNear(x, RSum(a), Eps (.) (Len(a) + 2) (.) RSum([k \in 1..Len(a) |-> RAbs(a[k])]), Eps)
QqOk(x, v, o, raw) ==
  LET n == Len(v) \div 2
      ob0 == Tab([k \in 1..n |-> v[2 * k - 1]])  fc0 == Tab([k \in 1..n |-> v[2 * k]])
      extra == QqExtras(o) > 0
      ob == IF extra THEN RSort(ob0 \o o.extraObs) ELSE ob0
      fc == IF extra THEN RSort(fc0 \o o.extraFcst) ELSE fc0
      m == Len(ob)
      pol == Opt(o, "extrapolation", "1to1")
      \* beyond the node k of the curve, with its slope
      PastNode(k, s) == RNear(x, ob[k] (+) (s (.) (raw (-) fc[k])), Eps (.) 6 (.) (RAbs(ob[k]) (+) (RAbs(s) (.) (RAbs(raw) (+) RAbs(fc[k])))), Eps)
      SlopeOf(a, b) == (ob[b] (-) ob[a]) (/) (fc[b] (-) fc[a])
      \* rounding of the differences, as far as it changes the slope
      Steep(a, b, k) == RNear(x, ob[k] (+) (SlopeOf(a, b) (.) (raw (-) fc[k])), Eps (.) 8 (.) (RAbs(ob[k]) (+) RAbs(raw (-) fc[k]) (.) (RAbs(SlopeOf(a, b)))), Eps)
      Out(k) ==
        IF m = 1 THEN PastNode(k, 1) \/ (pol = "zero" /\ PastNode(k, 0))
        ELSE IF pol = "1to1" THEN PastNode(k, 1)
        ELSE IF pol = "zero" THEN PastNode(k, 0)
        ELSE LET a == IF pol = "meanSlope" \/ k = 1 THEN 1 ELSE m - 1
                 b == IF pol = "meanSlope" \/ k = m THEN m ELSE 2
             IN REq(fc[a], fc[b]) \/ PastNode(k, SlopeOf(a, b))
  IN IF AnyMissing(v) \/ AnyMissing(Opt(o, "extraObs", <<>>)) \/ AnyMissing(Opt(o, "extraFcst", <<>>)) THEN CSame(x, raw)
     ELSE IF CMissing(raw) THEN CMissing(x)
     ELSE IF ~Sorted(fc) THEN TRUE
     ELSE IF fc[1] \prec raw /\ raw \prec fc[m] THEN CValid(x) /\ InterpOk(x, raw, fc, ob)
     ELSE IF raw \preceq fc[1] THEN Out(1) ELSE Out(m)
ParMemberOk(in, v, F(_), x, c, t) ==
  LET o == in.opt  old == FVal(F(VarName(in.v))[t], c) IN
  CASE in.name = "windDirection" -> LET dir == FVal(F(o.directionVariable)[t], c) IN
         IF CMissing(old) \/ CMissing(dir) \/ AnyMissing(v) THEN CSame(x, old) ELSE WindFactorOk(x, v, dir, old)
    [] in.name = "regression" -> IF CMissing(old) THEN CMissing(x) ELSE RegressionOk(x, v, F, o, in.name, c, t, old)
    [] in.name = "qq" -> QqOk(x, v, o, old)
    [] OTHER -> FALSE

\* ---- a whole ensemble ---------------------------------------------------------
\* f(i), i in 0..n: what a value becomes (0), and what it becomes when one of its ingredients is off by its rounding
RECURSIVE DevSum(_, _)
DevSum(f, i) == IF i < 2 THEN 0 ELSE RAbs(f[i] (-) f[1]) (+) DevSum(f, i - 1)
Within2(x, f, rel) == \/ \E i \in 1..Len(f) : ~IsFin(f[i])
                      \/ RNear(x, f[1], (2 (.) DevSum(f, Len(f))) (+) Tiny, rel)
Odd(f) == \E i \in 1..Len(f) : ~IsFin(f[i])
\* X took the place of E; V[k]: the value of quantile (k - 1/2)/n and its deviations
RanksKept(X, E) == \A i, j \in 1..Len(E) : E[i] \prec E[j] => X[i] \preceq X[j]
Redistributed(X, E, V, rel) ==
  \/ \E k \in 1..Len(V) : Odd(V[k])
  \/ /\ \A i \in 1..Len(X) : CValid(X[i])
     /\ LET S == RSort(X)  n == Len(S)
            up == n = 1 \/ V[1][1] \preceq V[n][1]
        IN \A k \in 1..n : Within2(S[k], V[IF up THEN k ELSE n + 1 - k], rel)
     /\ AnyMissing(E) \/ RanksKept(X, E)
Level(k, n) == RF32(RNum(2 * k - 1, 2 * n))
\* all values of all members around a cell
AllAround(s, f, c, r) ==
  LET RECURSIVE Join2(_)
      Join2(e) == IF e = 0 THEN <<>> ELSE Join2(e - 1) \o Around(s, f, <<c[1], c[2], e>>, r)
  IN Tab(Join2(s.ne))
Third(x) == RPow(x, RNum(1, 3))
Sq(x) == x (.) x
Sgn(i, k) == IF i = 2 * k THEN 1 ELSE IF i = 2 * k + 1 THEN RNeg(1) ELSE 0

GaussianOk(in, s, v, f, X, c) ==
  LET o == in.opt
      E == f[c[1]][c[2]]
      w == ValidOf(AllAround(s, f, c, Opt(o, "neighbourhoodSize", 0)))
      n == Len(w)
      m == RSum(w) (/) n
      q2 == RSum([i \in 1..n |-> Sq(w[i])]) (/) n
      var == RMax2(0, q2 (-) Sq(m))
      verr == Eps (.) (n + 4) (.) (q2 (+) Sq(m))
      sd == RSqrt(var)
      derr == RMax2(RSqrt(var (+) verr) (-) sd, sd (-) RSqrt(RMax2(0, var (-) verr)))
      merr == Eps (.) (n + 1) (.) (RSum([i \in 1..n |-> RAbs(w[i])]) (/) n)
      Sig(d) == RExp(v[1] (+) (v[2] (.) d) (+) 0)
      sigrel == Eps (.) 2 (.) (1 (+) RAbs(v[1]) (+) RAbs(v[2] (.) sd))
      Dev(k) == LET z == RNormQuantile(Level(k, s.ne)) IN
        Tab(<<m (+) (Sig(sd) (.) z), m (+) merr (+) (Sig(sd) (.) z), m (+) (Sig(sd (+) derr) (.) z), m (+) (Sig(RMax2(0, sd (-) derr)) (.) z), m (+) (Sig(sd) (.) z (.) (1 (+) sigrel)), m (+) (Sig(sd) (.) (z (+) RLit("1e-6")))>>)
      same == \A i \in 1..Len(E) : CSame(X[i], E[i])
      new == Redistributed(X, E, Tab([k \in 1..s.ne |-> Dev(k)]), RLit("2e-7"))
  IN IF n = 0 \/ AnyMissing(v) THEN same
     ELSE IF (m (+) merr) \preceq 0 THEN same
     ELSE IF (m (-) merr) \preceq 0 \/ AnyMissing(Cv1(E)) \/ RLit("1e36") \prec Sig(sd (+) derr) \/ RLit("1e36") \prec Sig(RMax2(0, sd (-) derr)) \/ Sig(sd (+) derr) \prec RLit("1e-35") \/ Sig(RMax2(0, sd (-) derr)) \prec RLit("1e-35") THEN same \/ new
     ELSE new

\* zero-adjusted gamma: ingredients off by their rounding for i > 1
ZagaP0(v, m, fr) == LET l == v[5] (+) (v[6] (.) m) (+) (v[7] (.) fr) (+) (v[8] (.) Third(m)) IN 1 (/) (1 (+) RExp(RNeg(l)))
ZagaLogitErr(v, m, fr) == Eps (.) 6 (.) (1 (+) RAbs(v[5]) (+) RAbs(v[6] (.) m) (+) RAbs(v[7] (.) fr) (+) RAbs(v[8] (.) Third(m)))
ZagaMu(v, m) == RExp(v[1] (+) (v[2] (.) Third(m)))
ZagaSigma(v, m) == RExp(v[3] (+) (v[4] (.) m))
\* the ways in which the ingredients may be off: mean, fraction, P0, mu, sigma
ZagaWays(v, g) ==
  Tab([i \in 1..11 |->
    LET m == RMax2(0, g.m (+) (Sgn(i, 1) (.) g.merr))
        fr == IF i = 4 THEN g.flo ELSE IF i = 5 THEN g.fhi ELSE g.fr
        p == ZagaP0(v, m, fr)
        P == RMin2(1, RMax2(0, p (+) (Sgn(i, 3) (.) ((p (.) (1 (-) p) (.) ZagaLogitErr(v, m, fr)) (+) (Eps (.) p)))))
        mu == ZagaMu(v, m) (.) (1 (+) (Sgn(i, 4) (.) Eps (.) 3 (.) (1 (+) RAbs(v[1]) (+) RAbs(v[2] (.) Third(m)))))
        sg == ZagaSigma(v, m) (.) (1 (+) (Sgn(i, 5) (.) Eps (.) 3 (.) (1 (+) RAbs(v[3]) (+) RAbs(v[4] (.) m))))
    IN [P |-> P, shape |-> 1 (/) Sq(sg), scale |-> Sq(sg) (.) mu, sane |-> RLit("1e-4") \prec sg /\ sg \prec 1000 /\ RLit("1e-30") \prec mu /\ mu \prec RLit("1e30")]])
ZagaQuantile(w, q) == IF REq(q, 0) \/ q \prec w.P THEN RNum(0, 1) ELSE IF REq(w.P, 1) THEN RNaN ELSE w.scale (.) RGammaQuantile((q (-) w.P) (/) (1 (-) w.P), w.shape)
\* the level within the continuous part is itself rounded
ZagaQuantiles(W, q) ==
  IF \E i \in 1..Len(W) : ~W[i].sane THEN <<RNaN>>
  ELSE Tab([i \in 1..(Len(W) + 2) |-> IF i <= Len(W) THEN ZagaQuantile(W[i], q) ELSE
             LET d == (Eps (.) 3) (.) (1 (+) (1 (/) RMax2(RLit("1e-7"), 1 (-) W[1].P))) IN ZagaQuantile(W[1], RMin2(1, RMax2(RLit("1e-30"), IF i = Len(W) + 1 THEN q (+) d ELSE q (-) d)))])
ZagaAbove(w, x) == IF REq(x, 0) THEN 1 (-) w.P ELSE (1 (-) w.P) (.) (1 (-) GammaCdf(w.shape, w.scale, x))
\* mean and fraction at or below the threshold; [ok]: whether all values are there
ZagaInput(in, s, F(_), c, t) ==
  LET o == in.opt
      hours == IF Opt(o, "6h", 0) = 1 THEN 6 ELSE 1
      r == Opt(o, "neighbourhoodSize", 0)
      parts == Tab([h \in 1..hours |-> AllAround(s, F(VarName(in.v))[t - hours + h], c, r)])
      n == Len(parts[1])
      tot == Tab([i \in 1..n |-> RSum([h \in 1..hours |-> parts[h][i]])])
      mag == Tab([i \in 1..n |-> RSum([h \in 1..hours |-> RAbs(parts[h][i])])])
      thr == RF32(Opt(o, "fracThreshold", RNum(1, 2)))
      slack(i) == IF hours = 1 THEN 0 ELSE mag[i] (.) Eps (.) 6
      sure == Cardinality({i \in 1..n : (tot[i] (+) slack(i)) \preceq thr})
      may == Cardinality({i \in 1..n : (tot[i] (-) slack(i)) \preceq thr})
      mean == RSum(tot) (/) n
      cap == RF32(Opt(o, "maxEnsMean", 100))
  IN IF \E h \in 1..hours : \E i \in 1..n : CMissing(parts[h][i]) THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, m |-> RMin2(mean, cap), merr |-> Eps (.) (n + 8) (.) (RSum(mag) (/) n), fr |-> RNum(sure, n), flo |-> RNum(sure, n) (-) Eps, fhi |-> RNum(may, n) (+) Eps]
ZagaOk(in, s, v, F(_), X, c, t) ==
  LET o == in.opt
      E == F(VarName(in.v))[t][c[1]][c[2]]
      same == \A i \in 1..Len(E) : CSame(X[i], E[i])
      g == ZagaInput(in, s, F, c, t)
  IN IF "popVariable" \in DOMAIN o \/ (Opt(o, "6h", 0) = 1 /\ t < 6) THEN same
     ELSE IF ~g.ok \/ AnyMissing(v) THEN same
     ELSE IF (g.m (+) g.merr) \prec 0 THEN same
     ELSE LET W == ZagaWays(v, g)  new == Redistributed(X, E, Tab([k \in 1..s.ne |-> ZagaQuantiles(W, Level(k, s.ne))]), RLit("2e-6")) IN
          new \/ (g.m \prec g.merr /\ same)
\* the fields it writes besides: probability of precipitation and quantiles
ZagaSide(in, n) ==
  LET o == in.opt IN
  IF "popVariable" \notin DOMAIN o THEN "" ELSE IF o.popVariable = n THEN "pop"
  ELSE IF "precipLowQuantile" \in DOMAIN o /\ o.lowVariable = n THEN "low" ELSE IF "precipMiddleQuantile" \in DOMAIN o /\ o.middleVariable = n THEN "middle" ELSE IF "precipHighQuantile" \in DOMAIN o /\ o.highVariable = n THEN "high" ELSE ""
ZagaSideOk(in, s, v, F(_), kind, x, old, c, t) ==
  LET o == in.opt
      g == ZagaInput(in, s, F, c, t)
      thr == RF32(Opt(o, "popThreshold", RNum(1, 2)))
      q == RF32(CASE kind = "low" -> o.precipLowQuantile [] kind = "middle" -> o.precipMiddleQuantile [] kind = "high" -> o.precipHighQuantile [] OTHER -> 0)
      given == IF kind = "pop" THEN ~(thr \prec 0) ELSE 0 \preceq q /\ q \prec 1
  IN IF Opt(o, "6h", 0) = 1 /\ t < 6 THEN CMissing(x) \/ (kind # "pop" /\ CSame(x, old))
     ELSE IF ~g.ok THEN CSame(x, old) \/ CMissing(x)
     ELSE IF kind # "pop" /\ ~given THEN CMissing(x)
     ELSE IF (g.m (+) g.merr) \prec 0 THEN CMissing(x)
     ELSE IF g.m \prec g.merr /\ CMissing(x) THEN TRUE
     ELSE IF kind = "pop" /\ thr \prec 0 THEN REq(x, 1)
     ELSE IF AnyMissing(v) THEN CMissing(x)
     ELSE LET W == ZagaWays(v, g) IN
          IF \E i \in 1..Len(W) : ~W[i].sane THEN TRUE
          ELSE IF kind = "pop" THEN CValid(x) /\ LET A == Tab([i \in 1..Len(W) |-> ZagaAbove(W[i], thr)]) IN RNear(x, A[1], (2 (.) DevSum(A, Len(A))) (+) RLit("3e-7"), 0)
          ELSE LET Q == ZagaQuantiles(W, q) IN IF Odd(Q) THEN TRUE ELSE CValid(x) /\ Within2(x, Q, RLit("2e-6"))

\* Box-Cox t: mean, spread, sigma, nu, mu off by their rounding; the level as well
BctValue(mu, sg, nu, tau, q, dp) ==
  LET T == RStudentCdf(1 (/) (sg (.) RAbs(nu)), tau)
      p == IF nu \preceq 0 THEN q (.) (IF REq(nu, 0) THEN 1 ELSE T) ELSE 1 (-) ((1 (-) q) (.) T)
      z == RStudentQuantile(p (+) dp, tau)
  IN IF REq(nu, 0) THEN mu (.) RExp(sg (.) z) ELSE mu (.) RPow(1 (+) (sg (.) nu (.) z), 1 (/) nu)
BctOk(in, s, v, f, X, c) ==
  LET E == f[c[1]][c[2]]
      n == Len(E)
      m0 == RSum(E) (/) n
      sd == RSqrt(RSum([i \in 1..n |-> Sq(E[i] (-) m0)]) (/) n)
      big == MaxAbs(E)
      merr == Eps (.) (n + 2) (.) big
      derr == Eps (.) (n + 4) (.) (big (+) sd)
      m == RMin2(m0, RF32(Opt(in.opt, "maxEnsMean", 100)))
      tau == RExp(RMin2(10, v[7]))
      sane == RLit("-3") \preceq v[7]
      Way(i, q) ==
        LET mm == m (+) (Sgn(i, 1) (.) merr)
            dd == RMax2(0, sd (+) (Sgn(i, 2) (.) derr))
            mu == (v[1] (+) (v[2] (.) mm)) (+) (Sgn(i, 3) (.) Eps (.) 2 (.) (RAbs(v[1]) (+) RAbs(v[2] (.) mm)))
            sg == RExp(v[3] (+) (v[4] (.) Third(dd))) (.) (1 (+) (Sgn(i, 4) (.) Eps (.) 4 (.) (1 (+) RAbs(v[3]) (+) RAbs(v[4] (.) Third(dd)))))
            nu == (v[5] (+) (v[6] (.) mm)) (+) (Sgn(i, 5) (.) Eps (.) 2 (.) (RAbs(v[5]) (+) RAbs(v[6] (.) mm)))
        IN IF ~(RLit("1e-6") \prec sg) \/ ~(sg \prec RLit("1e6")) THEN RNaN
           \* the level of the truncated distribution is rounded to single precision
           ELSE BctValue(mu, sg, nu, tau, q, IF i = 12 THEN Eps ELSE IF i = 13 THEN RNeg(Eps) ELSE RNum(0, 1))
      V == Tab([k \in 1..n |-> Tab([i \in 1..13 |-> Way(i, Level(k, n))])])
      same == \A i \in 1..n : CSame(X[i], E[i])
  IN IF AnyMissing(E) \/ AnyMissing(v) \/ (m0 (+) merr) \prec 0 THEN same
     ELSE IF ~sane THEN TRUE
     ELSE Redistributed(X, E, V, RLit("2e-6")) \/ (m0 \prec merr /\ same)

ParRunOk(fl, ps, e) ==
  LET in == e.in  s == fl[in.f]
      p == IF "p" \in DOMAIN in THEN ps[in.p] ELSE <<>>
      serves == IF "p" \in DOMAIN in THEN ParsServe(in, p, NT(s)) ELSE "no"
      before == [n \in Range1(in.look) |-> FieldsOf(s, n)]
      F(n) == IF n \in DOMAIN before THEN before[n] ELSE FieldsOf(s, n)
      v == VarName(in.v)
      ParsAt(c, t) == ParsFor(p, CellPlace(s, c[1], c[2]), t - 1)
      SideOf(n) == IF in.name = "zaga" THEN ZagaSide(in, n) ELSE ""
      out == e.out.fields
      CellOk(c, t) ==
        IF in.name \in MemberCals THEN \E w \in ParsAt(c, t) : Len(w) = 0 \/ ParMemberOk(in, w, F, FVal(out[v][t], c), c, t)
        ELSE c[3] # 1 \/ LET X == out[v][t][c[1]][c[2]] IN
             \E w \in ParsAt(c, t) :
               IF Len(w) = 0 THEN TRUE ELSE
               CASE in.name = "gaussian" -> GaussianOk(in, s, w, F(v)[t], X, c)
                 [] in.name = "zaga" -> ZagaOk(in, s, w, F, X, c, t)
                 [] in.name = "bct" -> BctOk(in, s, w, F(v)[t], X, c)
                 [] OTHER -> FALSE
  IN IF ParBadOptions(in) \/ serves = "no" THEN IsErr(e)
     ELSE IF serves = "any" THEN IsErr(e) \/ IsOk(e)
     ELSE IF IsErr(e) THEN serves = "few" \/ Holes(p)
     ELSE /\ IsOk(e) /\ e.out.done = TRUE /\ DOMAIN out = Range1(in.look) /\ SameElevs(e.out.elevs, s.elevs)
          /\ \A n \in Range1(in.look) : Len(out[n]) = NT(s) /\ \A t \in 1..NT(s) : SameShape(out[n][t], MVField(s))
          /\ \A n \in Range1(in.look) \ {v} : \A t \in 1..NT(s) :
               IF SideOf(n) = "" THEN SameField(out[n][t], F(n)[t])
               ELSE serves # "few" => \A c \in Cells(MVField(s)) : \E w \in ParsAt(c, t) : Len(w) = 0 \/ ZagaSideOk(in, s, w, F, SideOf(n), FVal(out[n][t], c), FVal(F(n)[t], c), c, t)
          /\ \A t \in 1..NT(s) : IF serves = "few" THEN SameField(out[v][t], F(v)[t]) ELSE \A c \in Cells(MVField(s)) : CellOk(c, t)
=============================================================================
