------------------------------ MODULE Curves -------------------------------
(* Calibration curves, verification scores, transformations, meteorological *)
(* diagnostics and the gamma distribution.                                   *)
EXTENDS Downscale

\* ---- calibration curves ------------------------------------------------------
Policies == {"OneToOne", "MeanSlope", "NearestSlope", "Zero", "Unchanged"}
CurveUsable(F, R) == Len(F) > 0 /\ Sorted(F) /\ (\A i \in 1..Len(F) : Valid(F[i]) /\ Valid(R[i]))
\* along a straight line through (f, r)
LineOk(o, x, f, r, slope) ==
  RNear(o, r (+) (slope (.) (x (-) f)), (Eps (.) 4 (.) RAbs(r)) (+) (Eps (.) 8 (.) RAbs(slope) (.) (RAbs(x) (+) RAbs(f))) (+) Tiny, Eps)
SlopeOk(o, x, F, R, a, b, f, r) ==
  \* nothing is said of a slope between nodes that coincide
  REq(F[a], F[b]) \/ LineOk(o, x, f, r, (R[b] (-) R[a]) (/) (F[b] (-) F[a]))
CurveOk(o, x, R, F, below, above) ==
  IF Missing(x) THEN Missing(o)
  ELSE IF ~CurveUsable(F, R) THEN TRUE
  ELSE LET n == Len(F) IN
       IF Within(x, F[1], F[n]) THEN InterpOk(o, x, F, R)
       ELSE LET low == x \prec F[1]
                p == IF low THEN below ELSE above
                f == IF low THEN F[1] ELSE F[n]
                r == IF low THEN R[1] ELSE R[n]
            IN CASE p = "Unchanged" -> REq(o, x)
                 [] p = "Zero" -> REq(o, r)
                 [] p = "OneToOne" -> LineOk(o, x, f, r, 1)
                 [] n = 1 -> LineOk(o, x, f, r, 1)
                 [] p = "MeanSlope" -> SlopeOk(o, x, F, R, 1, n, f, r)
                 [] p = "NearestSlope" -> IF low THEN SlopeOk(o, x, F, R, 1, 2, f, r) ELSE SlopeOk(o, x, F, R, n - 1, n, f, r)
                 [] OTHER -> FALSE
PoliciesOk(i) == i.below \in Policies /\ i.above \in Policies
CurveSizesOk(R, F) == Len(R) = Len(F) /\ Len(F) > 0
Apply0Ok(e) ==
  LET i == e.in IN
  IF ~CurveSizesOk(i.ref, i.fcst) THEN IsErr(e)
  ELSE IF ~PoliciesOk(i) THEN IsErr(e) \/ (IsOk(e) /\ (Missing(i.x) \/ ~CurveUsable(i.fcst, i.ref) \/ CurveOk(e.out, i.x, i.ref, i.fcst, i.below, i.above)))
  ELSE IsOk(e) /\ CurveOk(e.out, i.x, i.ref, i.fcst, i.below, i.above)
Apply1Ok(e) ==
  LET i == e.in IN
  IF ~CurveSizesOk(i.ref, i.fcst) THEN IsErr(e)
  ELSE IF ~PoliciesOk(i) THEN IsErr(e) \/ (IsOk(e) /\ Len(i.x) = 0)
  ELSE IsOk(e) /\ Len(e.out) = Len(i.x) /\ \A k \in 1..Len(i.x) : CurveOk(e.out[k], i.x[k], i.ref, i.fcst, i.below, i.above)
Apply2Ok(e) ==
  LET i == e.in IN
  IF ~CurveSizesOk(i.ref, i.fcst) THEN IsErr(e)
  ELSE IF ~PoliciesOk(i) THEN IsErr(e) \/ (IsOk(e) /\ EmptyField(i.x))
  ELSE IsOk(e) /\ Len(e.out) = Len(i.x) /\ \A y \in 1..Len(i.x) :
         Len(e.out[y]) = Len(i.x[y]) /\ \A k \in 1..Len(i.x[y]) : CurveOk(e.out[y][k], i.x[y][k], i.ref, i.fcst, i.below, i.above)
\* a curve for each cell
Apply3Ok(e) ==
  LET i == e.in
      Alike(f) == Len(f) = Len(i.x) /\ \A y \in 1..Len(i.x) : Len(f[y]) = Len(i.x[y])
  IN IF ~Alike(i.ref) \/ ~Alike(i.fcst) THEN IsErr(e)
     ELSE IF \E y \in 1..Len(i.x) : \E k \in 1..Len(i.x[y]) : ~CurveSizesOk(i.ref[y][k], i.fcst[y][k]) THEN IsErr(e)
     ELSE IF ~PoliciesOk(i) THEN IsErr(e) \/ (IsOk(e) /\ EmptyField(i.x))
     ELSE IsOk(e) /\ (EmptyField(i.x) \/
            (Len(e.out) = Len(i.x) /\ \A y \in 1..Len(i.x) :
               Len(e.out[y]) = Len(i.x[y]) /\ \A k \in 1..Len(i.x[y]) : CurveOk(e.out[y][k], i.x[y][k], i.ref[y][k], i.fcst[y][k], i.below, i.above)))

QuantileMappingOk(e) ==
  LET i == e.in  n == Len(i.ref)  m == Len(i.quantiles) IN
  IF Len(i.ref) # Len(i.fcst) \/ (\E k \in 1..m : Missing(i.quantiles[k]) \/ BadLevel(i.quantiles[k])) THEN IsErr(e)
  ELSE IF n <= 1 THEN IsOk(e) /\ SameSeq(e.out.ref, i.ref) /\ SameSeq(e.out.fcst, i.fcst)
  ELSE IF (\E k \in 1..n : Missing(i.ref[k]) \/ Missing(i.fcst[k])) THEN IsOk(e)
  ELSE LET r == RSort(i.ref)  f == RSort(i.fcst) IN
       /\ IsOk(e)
       /\ IF m = 0 THEN SameSeq(e.out.ref, r) /\ SameSeq(e.out.fcst, f)
          ELSE /\ Len(e.out.ref) = m /\ Len(e.out.fcst) = m
               /\ \A k \in 1..m :
                    LET p == i.quantiles[k] (.) (n - 1)
                        \* the rank of the level, from 0; single precision may reach the next
                        ranks == {RFloor(p), RFloor(RF32(p)), RFloor(p (+) RLit("1e-6")), RFloor(RMax2(0, p (-) RLit("1e-6")))} \cap 0..(n - 1)
                    IN \E j \in ranks : REq(e.out.ref[k], r[j + 1]) /\ REq(e.out.fcst[k], f[j + 1])

\* Making a curve monotone: going along the nodes, one that does not lie beyond the previous one kept
\* (by more than a tolerance) starts a deviation, which lasts until a node lies beyond all kept before it;
\* the nodes kept before that are at or above the lowest of the deviation are then dropped.
MonoTol == RLit("0.1")
DropFrom(F, kept, level) == SelectSeq(kept, LAMBDA j : F[j] \prec level)
Mono0(F) == [kept |-> <<1>>, prev |-> F[1], dev |-> FALSE, lo |-> F[1]]
MonoStep(F, s, i) ==
  LET x == F[i] IN
  IF s.dev THEN
    LET lo == IF x \prec s.lo THEN x ELSE s.lo IN
    IF x \succ (s.prev (+) MonoTol)
    THEN [kept |-> Append(DropFrom(F, s.kept, lo (-) MonoTol), i), prev |-> x, dev |-> FALSE, lo |-> lo]
    ELSE [s EXCEPT !.lo = lo]
  ELSE IF x \preceq (s.prev (+) MonoTol) THEN [s EXCEPT !.dev = TRUE, !.lo = x]
  ELSE [s EXCEPT !.kept = Append(s.kept, i), !.prev = x]
MonoEnd(F, s) == IF s.dev THEN DropFrom(F, s.kept, s.lo) ELSE s.kept
RECURSIVE MonoRun(_, _, _)
MonoRun(F, s, i) == IF i > Len(F) THEN MonoEnd(F, s) ELSE MonoRun(F, MonoStep(F, s, i), i + 1)
Monotone(F) == IF Len(F) = 0 THEN <<>> ELSE MonoRun(F, Mono0(F), 2)
MonotonizeOk(e) ==
  LET i == e.in IN
  IF ~CurveSizesOk(i.ref, i.fcst) THEN IsErr(e)
  ELSE LET ok == SelectSeq([k \in 1..Len(i.ref) |-> k], LAMBDA k : Valid(i.ref[k]) /\ Valid(i.fcst[k]))
           F == [k \in 1..Len(ok) |-> i.fcst[ok[k]]]
           R == [k \in 1..Len(ok) |-> i.ref[ok[k]]]
           kept == Monotone(F)
       IN /\ IsOk(e)
          /\ Sorted(e.out.fcst)
          /\ SameSeq(e.out.fcst, [k \in 1..Len(kept) |-> F[kept[k]]])
          /\ SameSeq(e.out.ref, [k \in 1..Len(kept) |-> R[kept[k]]])

\* ---- scores -------------------------------------------------------------------
Metrics == {"Ets", "Ts", "Kss", "Pc", "Bias", "Hss"}
Ratio(o, num, den, scale) == RNear(o, num (/) den, (Eps (.) 16 (.) scale) (/) RAbs(den), Eps (.) 4)
ScoreOk(o, a, b, c, d, metric) ==
  LET n == a (+) b (+) c (+) d
      none(x) == REq(x, 0)
  IN CASE metric = "Ets" -> IF (none(b) /\ none(c) /\ (none(a) \/ none(d))) THEN IsNaN(o)
                            ELSE LET ar == ((a (+) b) (.) (a (+) c)) (/) n IN Ratio(o, a (-) ar, a (+) b (+) c (-) ar, a (+) ar)
       [] metric = "Ts" -> IF none(a (+) b (+) c) THEN IsNaN(o) ELSE Ratio(o, a, a (+) b (+) c, a)
       [] metric = "Pc" -> IF none(n) THEN IsNaN(o) ELSE Ratio(o, a (+) d, n, n)
       [] metric = "Kss" -> IF none(a (+) c) \/ none(b (+) d) THEN IsNaN(o)
                            ELSE Ratio(o, (a (.) d) (-) (b (.) c), (a (+) c) (.) (b (+) d), (a (.) d) (+) (b (.) c))
       [] metric = "Bias" -> IF REq(b, c) THEN REq(o, 1) ELSE Ratio(o, (b (+) c) (-) RAbs(b (-) c), b (+) c, b (+) c)
       [] metric = "Hss" -> LET den == ((a (+) c) (.) (c (+) d)) (+) ((a (+) b) (.) (b (+) d)) IN
                            IF none(den) THEN IsNaN(o) ELSE Ratio(o, 2 (.) ((a (.) d) (-) (b (.) c)), den, 2 (.) ((a (.) d) (+) (b (.) c)))
       [] OTHER -> FALSE
Score4Ok(e) ==
  LET i == e.in IN
  IF i.metric \notin Metrics THEN IsErr(e)
  ELSE IsOk(e) /\ IF \E x \in {i.a, i.b, i.c, i.d} : Missing(x) \/ x \prec 0 \/ x \succ RNum(1000000, 1) THEN TRUE
                  ELSE ScoreOk(e.out, i.a, i.b, i.c, i.d, i.metric)
\* the contingency table of the pairs of which neither is missing
Pairs(ref, fcst) == {k \in 1..Len(ref) : Valid(ref[k]) /\ Valid(fcst[k])}
Table(ref, fcst, th, fth) ==
  LET p == Pairs(ref, fcst) IN
  [a |-> Cardinality({k \in p : fcst[k] \succ fth /\ ref[k] \succ th}), b |-> Cardinality({k \in p : fcst[k] \succ fth /\ ref[k] \preceq th}),
   c |-> Cardinality({k \in p : fcst[k] \preceq fth /\ ref[k] \succ th}), d |-> Cardinality({k \in p : fcst[k] \preceq fth /\ ref[k] \preceq th})]
ScoreVecOk(e, th, fth) ==
  LET i == e.in IN
  IF Len(i.ref) # Len(i.fcst) \/ i.metric \notin Metrics THEN IsErr(e)
  ELSE IsOk(e) /\ (IsNaN(th) \/ IsNaN(fth) \/ LET t == Table(i.ref, i.fcst, th, fth) IN ScoreOk(e.out, t.a, t.b, t.c, t.d, i.metric))
\* the score's value, for the search of the best threshold
ScoreOf(t, metric) ==
  LET a == t.a  b == t.b  c == t.c  d == t.d  n == a + b + c + d IN
  CASE metric = "Ets" -> IF b = 0 /\ c = 0 /\ (a = 0 \/ d = 0) THEN RNaN
                         ELSE LET ar == RNum((a + b) * (a + c), n) IN (a (-) ar) (/) ((a + b + c) (-) ar)
    [] metric = "Ts" -> IF a + b + c = 0 THEN RNaN ELSE RNum(a, a + b + c)
    [] metric = "Pc" -> IF n = 0 THEN RNaN ELSE RNum(a + d, n)
    [] metric = "Kss" -> IF (a + c) * (b + d) = 0 THEN RNaN ELSE RNum((a * d) - (b * c), (a + c) * (b + d))
    [] metric = "Bias" -> IF b = c THEN RNum(1, 1) ELSE RSub(1, RNum(Abs(b - c), b + c))
    [] metric = "Hss" -> LET den == ((a + c) * (c + d)) + ((a + b) * (b + d)) IN IF den = 0 THEN RNaN ELSE RNum(2 * ((a * d) - (b * c)), den)
\* o is as good as the ten evenly spaced thresholds; it is missing where no threshold is better than
\* the lowest or the highest forecast
OptimumOk(o, ref, fcst, th, metric) ==
  LET fs == ValidOf(fcst) IN
  IF Len(fs) = 0 THEN IsNaN(o)
  ELSE LET lo == RMinOf(fs)  hi == RMaxOf(fs)
           S(x) == ScoreOf(Table(ref, fcst, th, x), metric)
           d == RLit("2e-6") (.) RMax2(RAbs(lo), RAbs(hi))
           bins == [k \in 1..10 |-> lo (+) (((hi (-) lo) (.) (k - 1)) (/) 9)]
           \* the score near x at its least
           Least(x) == LET v == ValidOf(<<S(RMax2(lo, x (-) d)), S(x), S(RMin2(hi, x (+) d))>>) IN IF Len(v) = 0 THEN RNeg(9) ELSE RMinOf(v)
           best == RMaxOf([k \in 1..10 |-> IF k = 1 THEN (IF IsNaN(S(lo)) THEN RNeg(9) ELSE S(lo)) ELSE Least(bins[k])])
           s0 == S(lo)  s1 == S(hi)
           Close(s, t) == Valid(s) /\ RAbs(t (-) s) \prec RLit("0.00101")
           e == RLit("1e-5")
       IN IF IsNaN(o) THEN \/ best \preceq RLit("0.00011")
                           \/ Valid(s0) /\ best \preceq (s0 (+) RLit("0.00101"))
                           \/ Valid(s1) /\ best \preceq (s1 (+) RLit("0.00101"))
          ELSE LET so == S(o) IN
               /\ Within(o, lo (-) d, hi (+) d)
               /\ Valid(so) /\ so \succ RLit("0.00009")
               /\ best \preceq (so (+) e)
               /\ ~(Valid(s0) /\ RAbs(so (-) s0) \prec RLit("0.00099")) /\ ~(Valid(s1) /\ RAbs(so (-) s1) \prec RLit("0.00099"))
OptimalThresholdOk(e) ==
  LET i == e.in IN
  IF Len(i.ref) # Len(i.fcst) \/ i.metric \notin Metrics THEN IsErr(e)
  ELSE IsOk(e) /\ (Missing(i.threshold) \/ OptimumOk(e.out, i.ref, i.fcst, i.threshold, i.metric))
\* the thresholds that have an optimum, in their order, with their optima
RECURSIVE OptCurve(_, _, _, _)
OptCurve(i, o, k, j) ==
  IF k > Len(i.thresholds) THEN j = Len(o.fcst) + 1
  ELSE \/ /\ j <= Len(o.fcst) /\ REq(o.fcst[j], i.thresholds[k]) /\ Valid(o.ref[j])
          /\ OptimumOk(o.ref[j], i.ref, i.fcst, i.thresholds[k], i.metric) /\ OptCurve(i, o, k + 1, j + 1)
       \/ OptimumOk(RNaN, i.ref, i.fcst, i.thresholds[k], i.metric) /\ OptCurve(i, o, k + 1, j)
OptimizerCurveOk(e) ==
  LET i == e.in IN
  IF Len(i.ref) # Len(i.fcst) THEN IsErr(e)
  ELSE IF i.metric \notin Metrics THEN IsErr(e) \/ (IsOk(e) /\ Len(i.thresholds) = 0)
  ELSE IsOk(e) /\ Len(e.out.ref) = Len(e.out.fcst) /\ ((\E k \in 1..Len(i.thresholds) : Missing(i.thresholds[k])) \/ OptCurve(i, e.out, 1, 1))

NeighbourhoodScoreOk(st, e) ==
  LET i == e.in  G == Arg(st, "g", i.grid)  P == ArgPoints(st, i.points) IN
  IF ~ArgOk(st, "g", i.grid) \/ ~ArgOk(st, "p", i.points) \/ i.hw <= 0 \/ i.metric \notin Metrics THEN IsErr(e)
  ELSE IF ~(Len(i.fcst) = OY(G) /\ \A y \in 1..Len(i.fcst) : Len(i.fcst[y]) = OX(G)) \/ Len(i.ref) # Num(P) THEN IsErr(e)
  ELSE IF ~SameType(G, P) THEN MixedErr(e, G, P)
  ELSE IF EmptyObj(G) THEN IsOk(e) /\ EmptyField(e.out)
  ELSE IsOk(e) /\ IsField(e.out, OY(G), OX(G)) /\ (IsNaN(i.threshold) \/
    LET pos == Pos(G)
        near == Tab([p \in 1..Num(P) |-> NearestSet(DistsTo(pos, XYZ(G.type, P.lats[p], P.lons[p])), G.type)])
        clear == \A p \in 1..Num(P) : Cardinality(near[p]) = 1
        at == Tab([k \in 1..Num(G) |-> ValuesOf(i.ref, {p \in 1..Num(P) : near[p] = {k}})])
        \* 1 hit, 2 false alarm, 3 miss, 4 correct rejection, 0 nothing to compare
        cat == Tab([k \in 1..Num(G) |->
                 LET v == ValidOf(at[k])  f == i.fcst[RowOf(G, k) + 1][ColOf(G, k) + 1] IN
                 IF Len(v) = 0 \/ Missing(f) THEN 0
                 ELSE LET y == Mean(v) \succ i.threshold IN IF f \succ i.threshold THEN (IF y THEN 1 ELSE 2) ELSE (IF y THEN 3 ELSE 4)])
        \* a mean of several values may round across the threshold
        sure == \A k \in 1..Num(G) : LET v == ValidOf(at[k]) IN Len(v) <= 1 \/ RAbs(Mean(v) (-) i.threshold) \succ (Eps (.) 8 (.) MaxAbs(v))
        C == [y \in 1..OY(G) |-> [x \in 1..OX(G) |-> cat[IndexOf(G, y - 1, x - 1)]]]
    IN ~clear \/ ~sure \/
       \A y \in 1..OY(G) : \A x \in 1..OX(G) :
         LET h == Tab(Hood(C, y, x, i.hw))
             N(c) == Cardinality({k \in 1..Len(h) : h[k] = c})
             Share(c) == RNum(N(c), Len(h))
         IN ScoreOk(e.out[y][x], Share(1), Share(2), Share(3), Share(4), i.metric))

\* ---- the gamma distribution -----------------------------------------------------
NormCdf(x) == RNormCdf(x)
GammaCdf(shape, scale, x) == IF x \preceq 0 THEN RNum(0, 1) ELSE RGammaP(shape, x (/) scale)
\* x is where the distribution reaches the level p, to within rounding of x (relative d, absolute a) and of p
ReachesLevel(shape, scale, x, p, d, a) ==
  LET w == (d (.) RAbs(x)) (+) a
      lo == GammaCdf(shape, scale, x (-) w)  hi == GammaCdf(shape, scale, x (+) w)
      slack == RLit("1e-11")
  IN lo \preceq (p (.) (1 (+) slack)) /\ (p (.) (1 (-) slack)) \preceq hi
GammaInvOk(e) ==
  LET i == e.in  n == Len(i.shape) IN
  IF Len(i.levels) # n \/ Len(i.scale) # n THEN IsErr(e)
  ELSE IF \E k \in 1..n : \/ Missing(i.levels[k]) \/ BadLevel(i.levels[k]) \/ Missing(i.shape[k]) \/ i.shape[k] \preceq 0
                          \/ Missing(i.scale[k]) \/ i.scale[k] \preceq 0 THEN IsErr(e)
  ELSE /\ IsOk(e) /\ Len(e.out) = n
       /\ \A k \in 1..n :
            LET o == e.out[k] IN
            IF REq(i.levels[k], 1) THEN Missing(o)
            ELSE IF REq(i.levels[k], 0) THEN REq(o, 0)
            ELSE ~IsNaN(o) /\ 0 \preceq o /\ ReachesLevel(i.shape[k], i.scale[k], o, i.levels[k], Eps, RLit("2e-45") (+) (RLit("1e-300") (.) i.scale[k]))

\* ---- transformations ---------------------------------------------------------------
TransformDefOk(t) ==
  CASE t.kind = "StartedBoxCox" -> Valid(t.p) /\ t.p \succ 0 /\ Valid(t.q) /\ t.q \succ 0
    [] t.kind = "Gamma" -> Valid(t.p) /\ t.p \succ 0 /\ Valid(t.q) /\ t.q \succ 0 /\ Valid(t.tol) /\ 0 \preceq t.tol
    [] OTHER -> TRUE
\* the power with the rounding of its single-precision evaluation
PowNear(o, c, x, p, f) == LET w == RPow(x, p) IN RNear(o, f, Eps (.) 8 (.) c (.) w (.) (1 (+) RAbs(p (.) RLog(x))), Eps (.) 4)
\* is an error possible for v: outside the distribution's range or where its level reaches 0 or 1
GammaEdge(t, v, forward) ==
  IF forward THEN LET c == GammaCdf(t.p, t.q, v (+) t.tol) IN c \prec RLit("1e-300") \/ c \succ RLit("0.9999999999999995")
  ELSE v \prec RNeg(37) \/ v \succ 8
\* o is the transformed v; TRUE where v has no value (a logarithm of a negative number)
ForwardOk(o, t, v) ==
  CASE t.kind = "Identity" -> Same(o, v)
    [] Missing(v) -> IsNaN(o)
    [] t.kind = "Log" -> IF v \prec 0 THEN Missing(o) ELSE IF REq(v, 0) THEN Missing(o) ELSE RNear(o, RLog(v), Eps, Eps)
    [] t.kind = "BoxCox" ->
         IF Missing(t.p) THEN TRUE
         ELSE LET w == RMax2(v, 0) IN
         IF REq(t.p, 0) THEN IF REq(w, 0) THEN Missing(o) ELSE RNear(o, RLog(w), Eps, Eps)
         ELSE IF REq(w, 0) THEN IF t.p \succ 0 THEN RNear(o, RNeg(1) (/) t.p, 0, Eps (.) 2) ELSE Missing(o)
         ELSE LET q == RPow(w, t.p) IN IF q \succ RLit("1e37") THEN TRUE
              ELSE RNear(o, (q (-) 1) (/) t.p, (Eps (.) 4 (.) (q (+) 1) (.) (1 (+) RAbs(t.p (.) RLog(w)))) (/) RAbs(t.p), Eps (.) 2)
    [] t.kind = "StartedBoxCox" ->
         LET w == RMax2(v, 0) IN
         IF w \preceq t.q THEN REq(o, w)
         ELSE LET r == w (/) t.q  q == RPow(r, t.p) IN IF q \succ RLit("1e30") THEN TRUE
              ELSE RNear(o, t.q (.) (1 (+) ((q (-) 1) (/) t.p)), (t.q (.) Eps (.) 4 (.) (q (+) 1) (.) (1 (+) RAbs(t.p (.) RLog(r)))) (/) t.p, Eps (.) 4)
    [] t.kind = "Gamma" ->
         LET x == v (+) t.tol
             c(w) == GammaCdf(t.p, t.q, x (+) w)
             d == Eps (.) (RAbs(v) (+) t.tol)
             z(w) == RNormCdf(o (+) w)
             u == (Eps (.) RAbs(o)) (+) RLit("1e-6")
         IN ~IsNaN(o) /\ z(RNeg(u)) \preceq (c(d) (.) RLit("1.0000000001")) /\ (c(RNeg(d)) (.) RLit("0.9999999999")) \preceq z(u)
BackwardOk(o, t, v) ==
  CASE t.kind = "Identity" -> Same(o, v)
    [] Missing(v) -> IsNaN(o)
    [] t.kind = "Log" -> IF v \succ 88 THEN TRUE ELSE RNear(o, RExp(v), Tiny, Eps (.) (2 (+) RAbs(v)))
    [] t.kind = "BoxCox" ->
         IF Missing(t.p) THEN TRUE
         ELSE IF REq(t.p, 0) THEN v \succ 88 \/ RNear(o, RExp(v), Tiny, Eps (.) (2 (+) RAbs(v)))
         ELSE LET b == RMax2(1 (+) (t.p (.) v), 0)
                  e == Eps (.) 2 (.) (1 (+) RAbs(t.p (.) v))
                  At(x) == IF x \preceq 0 THEN (IF t.p \succ 0 THEN RNum(0, 1) ELSE RLit("1e300")) ELSE RPow(x, 1 (/) t.p)
                  lo == RMin2(At(b (-) e), At(b (+) e))  hi == RMax2(At(b (-) e), At(b (+) e))
                  f == Eps (.) 8 (.) (1 (+) RAbs((1 (/) t.p) (.) RLog(RMax2(b, Tiny))))
              IN IF hi \succ RLit("1e37") THEN TRUE ELSE ~IsNaN(o) /\ ((lo (.) (1 (-) f)) (-) Tiny) \preceq o /\ o \preceq ((hi (.) (1 (+) f)) (+) Tiny) /\ 0 \preceq o
    [] t.kind = "StartedBoxCox" ->
         IF v \preceq t.q THEN REq(o, RMax2(v, 0))
         ELSE LET s == (t.p (/) t.q) (.) (v (-) t.q)
                  b == 1 (+) s
                  e == (Eps (.) 2 (.) b) (+) (((Eps (.) t.p) (/) t.q) (.) (RAbs(v) (+) t.q))
                  h == RPow(b (+) e, 1 (/) t.p)  l == RPow(RMax2(b (-) e, RNum(1, 2)), 1 (/) t.p)
                  f == Eps (.) 8 (.) (1 (+) RAbs((1 (/) t.p) (.) RLog(b)))
              IN IF (t.q (.) h) \succ RLit("1e37") THEN TRUE ELSE ~IsNaN(o) /\ (t.q (.) l (.) (1 (-) f)) \preceq o /\ o \preceq (t.q (.) h (.) (1 (+) f))
    [] t.kind = "Gamma" ->
         LET x == o (+) t.tol
             w == (Eps (.) (RAbs(o) (+) t.tol)) (+) RLit("1e-37")
         IN ~IsNaN(o) /\ GammaCdf(t.p, t.q, x (-) w) \preceq (RNormCdf(v) (.) RLit("1.0000000001")) /\ (RNormCdf(v) (.) RLit("0.9999999999")) \preceq GammaCdf(t.p, t.q, x (+) w)
TransformOk(e) ==
  LET i == e.in  fw == i.dir = "forward"
      One(o, v) == IF fw THEN ForwardOk(o, i.t, v) ELSE BackwardOk(o, i.t, v)
      vals == CASE i.dim = 0 -> <<i.x>> [] i.dim = 1 -> i.x [] i.dim = 2 -> Flat2(i.x) [] OTHER -> IF Len(i.x) = 0 \/ Len(i.x[1]) = 0 THEN <<>> ELSE Flat3(i.x)
  IN IF ~TransformDefOk(i.t) THEN IsErr(e)
     ELSE IF IsErr(e) THEN i.t.kind = "Gamma" /\ \E k \in 1..Len(vals) : Valid(vals[k]) /\ GammaEdge(i.t, vals[k], fw)
     ELSE /\ IsOk(e)
          /\ CASE i.dim = 0 -> One(e.out, i.x)
               [] i.dim = 1 -> Len(e.out) = Len(i.x) /\ \A k \in 1..Len(i.x) : One(e.out[k], i.x[k])
               [] i.dim = 2 -> Len(e.out) = Len(i.x) /\ \A y \in 1..Len(i.x) : Len(e.out[y]) = Len(i.x[y]) /\ \A k \in 1..Len(i.x[y]) : One(e.out[y][k], i.x[y][k])
               [] OTHER -> Len(e.out) = Len(i.x) /\ \A y \in 1..Len(i.x) : Len(e.out[y]) = Len(i.x[y]) /\
                     \A k \in 1..Len(i.x[y]) : Len(e.out[y][k]) = Len(i.x[y][k]) /\ \A m \in 1..Len(i.x[y][k]) : One(e.out[y][k][m], i.x[y][k][m])
          /\ (i.dim = 1 /\ i.t.kind # "Identity") =>
                \A k, m \in 1..Len(i.x) : (Valid(e.out[k]) /\ Valid(e.out[m]) /\ i.x[k] \preceq i.x[m]) =>
                    (e.out[k] \preceq e.out[m] \/ RNear(e.out[k], e.out[m], RLit("1e-6"), RLit("1e-5")))
\* forward and back again
RoundtripOk(e) ==
  LET i == e.in IN
  IF ~TransformDefOk(i.t) THEN IsErr(e)
  ELSE IF IsErr(e) THEN i.t.kind = "Gamma"
  ELSE /\ IsOk(e) /\ Len(e.out.f) = Len(i.x) /\ Len(e.out.b) = Len(i.x) /\ Len(e.out.b2) = Len(i.x) /\ Len(e.out.f2) = Len(i.x)
       /\ \A k \in 1..Len(i.x) :
            /\ ForwardOk(e.out.f[k], i.t, i.x[k]) /\ BackwardOk(e.out.b2[k], i.t, i.x[k])
            /\ i.t.kind = "Gamma" \/ BackwardOk(e.out.b[k], i.t, e.out.f[k])
            /\ i.t.kind = "Gamma" \/ ForwardOk(e.out.f2[k], i.t, e.out.b2[k])
            /\ (Missing(i.x[k]) /\ i.t.kind # "Identity") => IsNaN(e.out.b[k])
            /\ (Valid(i.x[k]) /\ i.t.kind \in {"StartedBoxCox", "Gamma"} /\ Valid(e.out.f[k]) /\ (i.t.kind = "StartedBoxCox" => i.t.p \succ RLit("0.05")) /\ RAbs(i.x[k]) \prec RLit("1e4")) =>
                  \* a value below the lower bound maps to the bound
                  LET v == IF i.t.kind = "StartedBoxCox" THEN RMax2(i.x[k], 0) ELSE i.x[k] IN
                  RNear(e.out.b[k], v, IF i.t.kind = "Gamma" THEN (RLit("2e-5") (.) (i.t.tol (+) (i.t.p (.) i.t.q))) (+) RLit("1e-6") ELSE RLit("1e-4") (.) i.t.q, RLit("2e-4"))
            /\ (Valid(i.x[k]) /\ i.t.kind = "BoxCox" /\ Valid(i.t.p) /\ Valid(e.out.f[k]) /\ RAbs(i.t.p) \succ RLit("0.02") /\ RAbs(i.t.p) \prec 3 /\ i.x[k] \succ RLit("0.1") /\ i.x[k] \prec 20) =>
                  RNear(e.out.b[k], i.x[k], RLit("1e-3"), RLit("2e-3"))

\* ---- diagnostics -------------------------------------------------------------------
Kelvin == RLit("273.15")
VapourTable == <<RLit("0.000034"), RLit("0.000089"), RLit("0.000220"), RLit("0.000517"), RLit("0.001155"), RLit("0.002472"),
  RLit("0.005080"), RLit("0.01005"), RLit("0.01921"), RLit("0.03553"), RLit("0.06356"), RLit("0.1111"), RLit("0.1891"), RLit("0.3139"),
  RLit("0.5088"), RLit("0.8070"), RLit("1.2540"), RLit("1.9118"), RLit("2.8627"), RLit("4.2148"), RLit("6.1078"), RLit("8.7192"),
  RLit("12.272"), RLit("17.044"), RLit("23.373"), RLit("31.671"), RLit("42.430"), RLit("56.236"), RLit("73.777"), RLit("95.855"),
  RLit("123.40"), RLit("157.46"), RLit("199.26"), RLit("250.16"), RLit("311.69"), RLit("385.56"), RLit("473.67"), RLit("578.09"),
  RLit("701.13"), RLit("845.28"), RLit("1013.25")>>
\* saturation pressure, every 5 K from 173.16 K
Saturation(t) ==
  LET x == RMin2(RMax2((t (-) RLit("173.16")) (/) 5, 0), 39)  l == RFloor(x)
  IN VapourTable[l + 1] (+) ((VapourTable[l + 2] (-) VapourTable[l + 1]) (.) (x (-) l))
VapourOf(t, rh) == LET c == t (-) Kelvin IN rh (.) RLit("0.611") (.) RExp((RLit("17.63") (.) c) (/) (c (+) RLit("243.04")))
DewOf(ev) == (RLit("116.9") (+) (RLit("243.04") (.) RLog(ev))) (/) (RLit("16.78") (-) RLog(ev))
Physical(t) == t \succ 100 /\ t \prec 400
DewpointOk(o, t, rh) ==
  IF Missing(t) \/ Missing(rh) \/ rh \preceq 0 THEN IsNaN(o)
  ELSE IF ~Physical(t) \/ rh \succ 2 THEN TRUE
  ELSE /\ o \preceq t
       /\ RNear(o, RMin2(t, DewOf(VapourOf(t, rh)) (+) Kelvin), RLit("2e-3"), 0)
       /\ (REq(rh, 1) /\ t \succ 200 /\ t \prec 340) => RNear(o, t, RLit("1.2"), 0)
HumidityOk(o, t, td) ==
  IF Missing(t) \/ Missing(td) THEN IsNaN(o)
  ELSE IF t \preceq td THEN REq(o, 1)
  ELSE Within(o, 0, 1) /\ RNear(o, RMin2(1, Saturation(td) (/) Saturation(t)), RLit("1e-6"), RLit("3e-4"))
WetbulbOk(o, t, p, rh) ==
  IF Missing(t) \/ Missing(p) \/ Missing(rh) \/ rh \preceq 0 \/ t \prec RLit("30.1") THEN IsNaN(o)
  ELSE IF ~Physical(t) \/ rh \succ 2 \/ p \preceq 0 THEN TRUE
  ELSE LET ev == VapourOf(t, rh)  td == DewOf(ev)  g == (RLit("0.00066") (.) p) (/) 1000
           d == (4098 (.) ev) (/) ((td (+) RLit("243.04")) (.) (td (+) RLit("243.04")))
       IN /\ RNear(o, (((g (.) (t (-) Kelvin)) (+) (d (.) td)) (/) (g (+) d)) (+) Kelvin, RLit("3e-3"), 0)
          /\ Within(o, RMin2(t, td (+) Kelvin) (-) RLit("2e-3"), RMax2(t, td (+) Kelvin) (+) RLit("2e-3"))
PressureOk(o, ie, oe, p, t) ==
  IF Missing(ie) \/ Missing(oe) \/ Missing(p) \/ Missing(t) THEN IsNaN(o)
  ELSE IF t \preceq 0 THEN TRUE
  ELSE LET x == (RNeg(RLit("9.80665") (.) RLit("0.0289644")) (.) (oe (-) ie)) (/) (RLit("8.3144598") (.) t)
       IN /\ RAbs(x) \succ 80 \/ RNear(o, p (.) RExp(x), Tiny, (Eps (.) 4) (+) (Eps (.) 4 (.) RAbs(x)))
          /\ (p \succ 0 /\ ie \preceq oe) => o \preceq p
          /\ (p \succ 0 /\ oe \preceq ie) => p \preceq o
Ten(x) == RPow(10, x)
SlpBad(ps, alt, t, rh, td) == Missing(alt) \/ Missing(t) \/ ps \prec 0 \/ t \prec 0 \/ rh \prec 0 \/ rh \succ 1 \/ td \prec 0
SlpValue(ps, alt, t, rh, td) ==
  LET c == t (-) Kelvin
      h == ps (/) 100
      es == RLit("6.11") (.) Ten((RLit("7.5") (.) c) (/) (RLit("237.3") (+) c))
      ev == IF Valid(rh) THEN rh (.) es
            ELSE IF Valid(td) THEN RLit("6.11") (.) Ten((RLit("7.5") (.) (td (-) Kelvin)) (/) (RLit("237.3") (+) (td (-) Kelvin)))
            ELSE RNum(0, 1)
      la == RLog(ev (/) RLit("6.1094"))
      dc == IF Valid(rh) THEN (RLit("243.04") (.) la) (/) (RLit("17.625") (-) la) ELSE IF Valid(td) THEN td (-) Kelvin ELSE c (-) 3
  IN IF 50 \preceq alt
     THEN h (.) RExp(((RLit("9.80665") (.) alt) (/) RLit("287.05")) (/) (t (+) (RLit("0.00325") (.) alt) (+) (ev (.) RLit("0.12")))) (.) 100
     ELSE LET tv == t (/) (1 (-) ((RLit("0.379") (.) (RLit("6.11") (.) Ten((RLit("7.5") (.) dc) (/) (RLit("237.7") (+) dc)))) (/) h))
          IN (h (+) ((h (.) alt) (/) (RLit("29.27") (.) tv))) (.) 100
SlpOk(o, ps, alt, t, rh, td) ==
  IF Missing(ps) THEN Missing(o)
  ELSE IF ~Physical(t) \/ t \prec 200 \/ ps \prec 10000 \/ RAbs(alt) \succ 20000 \/ (Valid(td) /\ (td \prec 150)) THEN TRUE
  ELSE IF Valid(rh) /\ rh \prec RLit("1e-6") THEN RNear(o, SlpValue(ps, alt, t, RLit("1e-30"), td), RLit("0.5"), RLit("1e-5")) \/ (Missing(o) /\ alt \prec 50)
  ELSE RNear(o, SlpValue(ps, alt, t, rh, td), RLit("0.05"), RLit("2e-6"))
QnhOk(o, p, alt) ==
  IF Missing(p) THEN Missing(o)
  ELSE IF REq(p, 0) THEN REq(o, 0) \/ (Missing(alt) /\ IsNaN(o))
  ELSE IF Missing(alt) THEN IsNaN(o)
  ELSE IF p \prec 0 THEN TRUE
  ELSE LET k == (RLit("287.053") (.) RLit("0.0065")) (/) RLit("9.80665")
           b == RPow(p (/) RLit("101325"), k) (+) ((alt (.) RLit("0.0065")) (/) RLit("288.15"))
       IN b \prec RLit("0.05") \/
          /\ RNear(o, RLit("101325") (.) RPow(b, 1 (/) k), 0, RLit("8e-6") (+) (RLit("1e-6") (/) b))
          /\ REq(alt, 0) => RNear(o, p, 0, RLit("1e-5"))
          /\ alt \succ 1 => o \succeq (p (.) RLit("0.99999"))
WindSpeedOk(o, x, y) == IF Missing(x) \/ Missing(y) THEN Missing(o) ELSE RNear(o, RSqrt((x (.) x) (+) (y (.) y)), RLit("1e-20"), Eps)
\* the direction the wind comes from, in degrees from north
WindDirectionOk(o, x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN Missing(o)
  ELSE IF Missing(x) \/ Missing(y) THEN TRUE
  ELSE /\ Within(o, 0, 360)
       /\ (REq(x, 0) /\ REq(y, 0)) \/
          LET a == o (.) Deg  s == RSqrt((x (.) x) (+) (y (.) y))
          IN RNear(RNeg(s (.) RSin(a)), x, s (.) RLit("2e-6"), 0) /\ RNear(RNeg(s (.) RCos(a)), y, s (.) RLit("2e-6"), 0)
\* scalar and vector forms: the arguments named ks
Elementwise(e, ks, dim, Ok(_, _), Bad(_)) ==
  LET i == e.in
      A(k) == [j \in 1..Len(ks) |-> IF dim = 0 THEN i[ks[j]] ELSE i[ks[j]][k]]
      n == IF dim = 0 THEN 1 ELSE Len(i[ks[1]])
  IN IF dim = 1 /\ \E j \in 1..Len(ks) : Len(i[ks[j]]) # n THEN IsErr(e)
     ELSE IF \E k \in 1..n : Bad(A(k)) THEN IsErr(e)
     ELSE IsOk(e) /\ IF dim = 0 THEN Ok(e.out, A(1)) ELSE Len(e.out) = n /\ \A k \in 1..n : Ok(e.out[k], A(k))
Never(a) == FALSE
DiagnosticOps == {"dewpoint0", "dewpoint1", "relative_humidity0", "relative_humidity1", "wetbulb0", "wetbulb1", "pressure0", "pressure1", "slp0", "slp1",
                  "qnh0", "qnh1", "wind_speed0", "wind_speed1", "wind_direction0", "wind_direction1"}
DiagnosticOk(e) ==
  LET D == IF e.op \in {"dewpoint0", "relative_humidity0", "wetbulb0", "pressure0", "slp0", "qnh0", "wind_speed0", "wind_direction0"} THEN 0 ELSE 1 IN
  CASE e.op \in {"dewpoint0", "dewpoint1"} -> Elementwise(e, <<"t", "rh">>, D, LAMBDA o, a : DewpointOk(o, a[1], a[2]), Never)
    [] e.op \in {"relative_humidity0", "relative_humidity1"} -> Elementwise(e, <<"t", "td">>, D, LAMBDA o, a : HumidityOk(o, a[1], a[2]), Never)
    [] e.op \in {"wetbulb0", "wetbulb1"} -> Elementwise(e, <<"t", "p", "rh">>, D, LAMBDA o, a : WetbulbOk(o, a[1], a[2], a[3]), Never)
    [] e.op \in {"pressure0", "pressure1"} -> Elementwise(e, <<"ie", "oe", "p", "t">>, D, LAMBDA o, a : PressureOk(o, a[1], a[2], a[3], a[4]), Never)
    [] e.op \in {"slp0", "slp1"} -> Elementwise(e, <<"ps", "alt", "t", "rh", "td">>, D, LAMBDA o, a : SlpOk(o, a[1], a[2], a[3], a[4], a[5]), LAMBDA a : SlpBad(a[1], a[2], a[3], a[4], a[5]))
    [] e.op \in {"qnh0", "qnh1"} -> Elementwise(e, <<"p", "alt">>, D, LAMBDA o, a : QnhOk(o, a[1], a[2]), Never)
    [] e.op \in {"wind_speed0", "wind_speed1"} -> Elementwise(e, <<"x", "y">>, D, LAMBDA o, a : WindSpeedOk(o, a[1], a[2]), Never)
    [] OTHER -> Elementwise(e, <<"x", "y">>, D, LAMBDA o, a : WindDirectionOk(o, a[1], a[2]), Never)
=============================================================================
