----------------------------- MODULE Downscale -----------------------------
(* From one set of locations to another: nearest, bilinear, gradient and     *)
(* neighbour-search downscaling, probabilities, putting points on a grid,    *)
(* filling and doping.  An operation's arguments carry fk and tk, the kind   *)
(* ("g" grid, "p" points) of the locations it goes from and to, and nt, the  *)
(* number of leading dimensions besides the locations.                       *)
EXTENDS Structure

Rect(f, y, x) == Len(f) = y /\ \A r \in 1..Len(f) : Len(f[r]) = x
FitsObj(o, f) == IF IsGrid(o) THEN Rect(f, OY(o), OX(o)) ELSE Len(f) = Num(o)
Frames(nt, x) == IF nt = 1 THEN x ELSE <<x>>
OutFits(o, f) == FitsObj(o, f) \/ (Num(o) = 0 /\ \A k \in 1..Len(f) : Len(f[k]) = 0)
FitsFrames(o, nt, x) == \A t \in 1..Len(Frames(nt, x)) : FitsObj(o, Frames(nt, x)[t])
\* the output's frames, flattened to the locations of o
OutOk(o, nt, n, out) == Len(Frames(nt, out)) = n /\ FitsFrames(o, nt, out)
LatAt(o, k) == IF IsGrid(o) THEN o.lats[RowOf(o, k) + 1][ColOf(o, k) + 1] ELSE o.lats[k]
LonAt(o, k) == IF IsGrid(o) THEN o.lons[RowOf(o, k) + 1][ColOf(o, k) + 1] ELSE o.lons[k]
ValAt(o, f, k) == IF IsGrid(o) THEN f[RowOf(o, k) + 1][ColOf(o, k) + 1] ELSE f[k]
SameType(a, b) == a.type = b.type
EmptyObj(o) == Num(o) = 0
\* an empty object may forget its coordinate type
MixedErr(e, a, b) == IsErr(e) \/ (IsOk(e) /\ (EmptyObj(a) \/ EmptyObj(b)))

\* ---- where a value comes from ----------------------------------------------------
\* an alternative: a nearest node and the enclosing cell, if there is one, with the four weights; more than one
\* alternative where rounding decides
NodeAlts(o, pos, q) == {[nn |-> k, cell |-> <<>>] : k \in NearestSet(DistsTo(pos, q), o.type)}
Clamp(x) == RMax2(0, RMin2(1, x))
\* inverse of the bilinear map of the quadrangle A (0,0), B (1,0), C (1,1), D (0,1) at m, by Newton's method
RECURSIVE Inverse(_, _, _, _, _)
Inverse(q, m, u, v, n) ==
  IF n = 0 THEN <<u, v>>
  ELSE LET P(i) == q[1][i] (+) (u (.) (q[2][i] (-) q[1][i])) (+) (v (.) (q[4][i] (-) q[1][i])) (+) (u (.) v (.) (q[1][i] (-) q[2][i] (+) q[3][i] (-) q[4][i]))
           U(i) == (q[2][i] (-) q[1][i]) (+) (v (.) (q[1][i] (-) q[2][i] (+) q[3][i] (-) q[4][i]))
           V(i) == (q[4][i] (-) q[1][i]) (+) (u (.) (q[1][i] (-) q[2][i] (+) q[3][i] (-) q[4][i]))
           a == m[1] (-) P(1)  b == m[2] (-) P(2)
           det == (U(1) (.) V(2)) (-) (U(2) (.) V(1))
           du == ((a (.) V(2)) (-) (b (.) V(1))) (/) det
           dv == ((U(1) (.) b) (-) (U(2) (.) a)) (/) det
       IN Inverse(q, m, u (+) du, v (+) dv, n - 1)
CellAlt(o, c, k, m) ==
  LET q == Quad(o, c[1], c[2])
      D(i) == q[1][i] (-) q[2][i] (+) q[3][i] (-) q[4][i]
      edges == Tab([i \in 1..4 |-> EdgeLen(q[i], q[Nxt(i)])])
      minEdge == RMinOf(edges)
      area == RAbs(Cross(q[1], q[2], q[4]))
      skew == RSqrt((D(1) (.) D(1)) (+) (D(2) (.) D(2))) (/) minEdge
      size == RMaxOf([i \in 1..4 |-> RMax2(RAbs(q[i][1]), RAbs(q[i][2]))])
      strict == ~REq(minEdge, 0) /\ skew \preceq RNum(1, 4) /\ area \succ (RNum(1, 4) (.) minEdge (.) minEdge)
      \* below this much non-parallelism the cell may be taken for a parallelogram
      approx == IF skew \preceq RLit("3e-4") THEN skew ELSE RNum(0, 1)
      uv == Inverse(q, m, RNum(1, 2), RNum(1, 2), IF REq(skew, 0) THEN 1 ELSE 6)
      u == Clamp(uv[1])  v == Clamp(uv[2])
      w == <<(RNum(1, 1) (-) u) (.) (RNum(1, 1) (-) v), u (.) (RNum(1, 1) (-) v), u (.) v, (RNum(1, 1) (-) u) (.) v>>
  IN [nn |-> k, cell |-> <<IndexOf(o, c[1], c[2]), IndexOf(o, c[1] + 1, c[2]), IndexOf(o, c[1] + 1, c[2] + 1), IndexOf(o, c[1], c[2] + 1)>>,
      strict |-> strict, w |-> Tab(w),
      tol |-> RLit("1e-5") (+) (RNum(2, 1) (.) approx) (+) ((RLit("1.2e-6") (.) size (.) (RMaxOf(edges) (/) minEdge)) (/) minEdge)]
BilinearAlts(o, pos, q, m) ==
  LET nn == NearestSet(DistsTo(pos, q), o.type) IN
  UNION {{CellAlt(o, c, k, m) : c \in {c \in CellsAt(o, k) : Side(Quad(o, c[1], c[2]), m) # "out"}} : k \in nn}
  \cup (IF OX(o) < 2 \/ OY(o) < 2 \/ MayMiss(o, nn, m) THEN {[nn |-> k, cell |-> <<>>] : k \in nn} ELSE {})
  \* the box may have been found beside one nearest node and the fallback be another
\* values possible for an alternative and a field: <<lo, hi>> or missing
NodeVal(o, a, f) == ValAt(o, f, a.nn)
ValueOf(o, a, f) ==
  IF a.cell = <<>> THEN LET v == NodeVal(o, a, f) IN IF Valid(v) THEN <<v, v>> ELSE <<RNaN, RNaN>>
  ELSE LET v == Tab([i \in 1..4 |-> ValAt(o, f, a.cell[i])]) IN
       IF \E i \in 1..4 : Missing(v[i]) THEN LET n == NodeVal(o, a, f) IN IF Valid(n) THEN <<n, n>> ELSE <<RNaN, RNaN>>
       ELSE LET lo == RMinOf(v)  hi == RMaxOf(v)  r == Eps (.) 4 (.) MaxAbs(v) IN
            IF ~a.strict THEN <<lo (-) r, hi (+) r>>
            ELSE LET x == RDot(a.w, v)  t == (a.tol (.) (hi (-) lo)) (+) r IN
                 <<RMax2(lo (-) r, x (-) t), RMin2(hi (+) r, x (+) t)>>
Miss2(i) == IsNaN(i[1])
InVal(x, i) == IF Miss2(i) THEN Missing(x) ELSE i[1] \preceq x /\ x \preceq i[2]
AltsFor(d, o, pos, t, k) ==
  LET lat == LatAt(t, k)  lon == LonAt(t, k) IN
  IF d = "Bilinear" THEN BilinearAlts(o, pos, XYZ(o.type, lat, lon), <<lat, lon>>) ELSE NodeAlts(o, pos, XYZ(o.type, lat, lon))

\* ---- nearest, bilinear ---------------------------------------------------------------
DownscaleOk(st, e, d) ==
  LET i == e.in
      F == Arg(st, i.fk, i.from)  T == Arg(st, i.tk, i.to)
      x == Frames(i.nt, i.x)
  IN IF ~ArgOk(st, i.fk, i.from) \/ ~ArgOk(st, i.tk, i.to) THEN IsErr(e)
     ELSE IF ~FitsFrames(F, i.nt, i.x) \/ d \notin {"Nearest", "Bilinear"} THEN IsErr(e)
     ELSE IF ~SameType(F, T) THEN MixedErr(e, F, T)
     ELSE /\ IsOk(e) /\ OutOk(T, i.nt, Len(x), e.out)
          /\ LET o == Frames(i.nt, e.out)  pos == Pos(F) IN
             \A k \in 1..Num(T) :
               IF EmptyObj(F) THEN \A t \in 1..Len(x) : IsNaN(ValAt(T, o[t], k))
               ELSE LET alts == AltsFor(d, F, pos, T, k) IN
                    \A t \in 1..Len(x) : \E a \in alts : InVal(ValAt(T, o[t], k), ValueOf(F, a, x[t]))

\* ---- gradients ------------------------------------------------------------------------
\* interval arithmetic on <<lo, hi>>
IAdd(a, b) == <<a[1] (+) b[1], a[2] (+) b[2]>>
IMul(a, b) == LET p == Tab(<<a[1] (.) b[1], a[1] (.) b[2], a[2] (.) b[1], a[2] (.) b[2]>>) IN <<RMinOf(p), RMaxOf(p)>>
IWide(a) == LET r == (RLit("1e-6") (.) RMax2(RAbs(a[1]), RAbs(a[2]))) IN <<a[1] (-) r, a[2] (+) r>>
ISub(x, a) == <<x (-) a[2], x (-) a[1]>>
\* gradient g (interval) times the difference between x and the downscaled d
Correction(g, x, d) == IWide(IMul(g, IWide(ISub(x, d))))
\* rounding in the sum of value and correction
ISum(a, b) == LET r == RLit("4e-7") (.) (RMax2(RAbs(a[1]), RAbs(a[2])) (+) RMax2(RAbs(b[1]), RAbs(b[2]))) IN <<a[1] (+) b[1] (-) r, a[2] (+) b[2] (+) r>>
SimpleGradientOk(st, e) ==
  LET i == e.in
      F == ArgGrid(st, i.from)  T == Arg(st, i.tk, i.to)
      x == Frames(i.nt, i.x)
  IN IF ~ArgOk(st, "g", i.from) \/ ~ArgOk(st, i.tk, i.to) THEN IsErr(e)
     ELSE IF ~FitsFrames(F, i.nt, i.x) \/ i.d \notin {"Nearest", "Bilinear"} THEN IsErr(e)
     ELSE IF ~SameType(F, T) THEN MixedErr(e, F, T)
     ELSE /\ IsOk(e) /\ OutOk(T, i.nt, Len(x), e.out)
          /\ LET o == Frames(i.nt, e.out)  pos == Pos(F) IN
             \A k \in 1..Num(T) :
               IF EmptyObj(F) THEN \A t \in 1..Len(x) : IsNaN(ValAt(T, o[t], k))
               ELSE LET alts == AltsFor(i.d, F, pos, T, k)  oe == ValAt(T, T.elevs, k) IN
                    \A t \in 1..Len(x) : \E a \in alts :
                      LET v == ValueOf(F, a, x[t])  ie == ValueOf(F, a, F.elevs) IN
                      IF Miss2(v) \/ Miss2(ie) \/ Missing(oe) \/ Missing(i.eg) THEN Missing(ValAt(T, o[t], k))
                      ELSE InVal(ValAt(T, o[t], k), ISum(v, Correction(<<i.eg, i.eg>>, oe, ie)))
FullGradientOk(st, e) ==
  LET i == e.in
      F == ArgGrid(st, i.from)  T == Arg(st, i.tk, i.to)
      x == Frames(i.nt, i.x)
      useE == Len(i.eg) > 0  useL == Len(i.lg) > 0
      GOk(g) == Len(g) = 0 \/ (FitsFrames(F, i.nt, g) /\ Len(Frames(i.nt, g)) = Len(x))
  IN IF ~ArgOk(st, "g", i.from) \/ ~ArgOk(st, i.tk, i.to) THEN IsErr(e)
     ELSE IF ~FitsFrames(F, i.nt, i.x) \/ i.d \notin {"Nearest", "Bilinear"} \/ ~GOk(i.eg) \/ ~GOk(i.lg) THEN IsErr(e)
     ELSE IF ~SameType(F, T) THEN MixedErr(e, F, T)
     ELSE /\ IsOk(e) /\ OutOk(T, i.nt, Len(x), e.out)
          /\ LET o == Frames(i.nt, e.out)  pos == Pos(F)  eg == Frames(i.nt, i.eg)  lg == Frames(i.nt, i.lg) IN
             \A k \in 1..Num(T) :
               IF EmptyObj(F) THEN \A t \in 1..Len(x) : Missing(ValAt(T, o[t], k))
               ELSE LET alts == AltsFor(i.d, F, pos, T, k)  oe == ValAt(T, T.elevs, k)  ol == ValAt(T, T.lafs, k)
                        \* the correction by a field of gradients: zero where the elevation (land fraction) of either side is missing
                        Corr(a, use, g, inF, ox) ==
                          IF ~use THEN <<0, 0>>
                          ELSE LET d == ValueOf(F, a, inF) IN
                               IF Missing(ox) \/ Miss2(d) THEN <<0, 0>>
                               ELSE LET gg == ValueOf(F, a, g) IN IF Miss2(gg) THEN gg ELSE Correction(gg, ox, d)
                    IN \A t \in 1..Len(x) : \E a \in alts :
                         LET v == ValueOf(F, a, x[t])
                             ce == Corr(a, useE, IF useE THEN eg[t] ELSE <<>>, F.elevs, oe)
                             cl == Corr(a, useL, IF useL THEN lg[t] ELSE <<>>, F.lafs, ol)
                         IN IF Miss2(v) \/ Miss2(ce) \/ Miss2(cl) THEN Missing(ValAt(T, o[t], k))
                            ELSE InVal(ValAt(T, o[t], k), ISum(v, IAdd(ce, cl)))

\* ---- neighbours alike in elevation ------------------------------------------------------
\* S: a set of indices, n of them to be chosen as those of highest correlation (interval per index): the possible choices
TopChoices(S, cs, n) ==
  LET lo == [k \in S |-> (CHOOSE a \in cs[k] : \A b \in cs[k] : a[1] \preceq b[1])[1]]
      hi == [k \in S |-> (CHOOSE a \in cs[k] : \A b \in cs[k] : a[2] \succeq b[2])[2]]
      eps == RLit("3e-6")
      surely == {k \in S : Cardinality({j \in S \ {k} : hi[j] \succeq (lo[k] (-) eps)}) < n}
      possibly == {k \in S : Cardinality({j \in S \ {k} : lo[j] \succ (hi[k] (+) eps)}) < n}
  IN IF Cardinality(S) <= n THEN {S}
     ELSE IF Cardinality(possibly \ surely) > 14 THEN {}
     ELSE {surely \cup T : T \in {U \in SUBSET (possibly \ surely) : Cardinality(U) = n - Cardinality(surely)}}
SmartOk(st, e) ==
  LET i == e.in  F == ArgGrid(st, i.from)  T == ArgGrid(st, i.to) IN
  IF ~ArgOk(st, "g", i.from) \/ ~ArgOk(st, "g", i.to) \/ ~StructDefOk(st, i.structure) THEN IsErr(e)
  ELSE IF ~FitsObj(F, i.x) THEN IsErr(e)
  ELSE IF ~SameType(F, T) THEN MixedErr(e, F, T)
  ELSE /\ IsOk(e) /\ FitsObj(T, e.out)
       /\ LET pos == Pos(F)  val == Tab(FlatG(F, i.x)) IN
          \A k \in 1..Num(T) :
            LET p == PointAt(T, k)
                o == ValAt(T, e.out, k)
                ds == DistsTo(pos, XYZ(T.type, p.lat, p.lon))
                cs == Tab([j \in 1..Num(F) |-> CorrSet(st, i.structure, p, PointAt(F, j), FALSE)])
                MeanOk(S) == IF S = {} THEN IsNaN(o)
                             ELSE IF \E j \in S : Missing(val[j]) THEN Missing(o)
                             ELSE LET n == Cardinality(S)  g == [j \in S |-> val[j]] IN RNear(o, RSum(g) (/) n, RLit("1e-6") (.) (RSum([j \in S |-> RAbs(val[j])]) (/) n), 0)
            IN IF i.num <= 0 \/ EmptyObj(F) THEN IsNaN(o)
               ELSE \E l \in LocSet(st, i.structure, p) :
                      LET sure == SureIn(ds, F.type, l)  maybe == MaybeIn(ds, F.type, l)
                          m2 == IF Cardinality(maybe) > 5 THEN {} ELSE maybe
                          inexact == Cardinality(maybe) > 5
                      IN \/ \E M \in SUBSET m2 :
                              LET N == sure \cup M  ch == TopChoices(N, cs, i.num) IN
                              \* too many equals to go through: any mean of them
                              IF ch = {} THEN Missing(o) \/ (\E j \in N : Valid(val[j]))
                              ELSE \E S \in ch : MeanOk(S)
                         \/ inexact
\* the values of the neighbourhood where another field is within a range
SearchOk(e) ==
  LET i == e.in  x == i.x  s == i.search  ny == Len(x)  nx == IF ny = 0 THEN 0 ELSE Len(x[1])  useA == Len(i.apply) > 0 IN
  IF i.tmin \succ i.tmax \/ i.hw < 0 \/ ~Rect(s, ny, nx) \/ (useA /\ ~Rect(i.apply, ny, nx)) THEN IsErr(e)
  ELSE IF Missing(i.tmin) \/ Missing(i.tmax) \/ Missing(i.delta) THEN IsErr(e) \/ (IsOk(e) /\ Rect(e.out, ny, nx))
  ELSE /\ IsOk(e) /\ Rect(e.out, ny, nx)
       /\ \A r \in 1..ny : \A c \in 1..nx :
            LET o == e.out[r][c] IN
            IF Missing(s[r][c]) \/ (useA /\ i.apply[r][c] = 0) THEN Same(o, x[r][c])
            ELSE IF useA /\ i.apply[r][c] # 1 THEN TRUE
            ELSE LET cells == {p \in (MaxIn({1, r - i.hw})..MinIn({ny, r + i.hw})) \X (MaxIn({1, c - i.hw})..MinIn({nx, c + i.hw})) :
                                 Valid(s[p[1]][p[2]]) /\ Valid(x[p[1]][p[2]])}
                     V(p) == x[p[1]][p[2]]  S(p) == s[p[1]][p[2]]
                     inside == {p \in cells : i.tmin \preceq S(p) /\ S(p) \preceq i.tmax}
                     D(p) == RMin2(RAbs(S(p) (-) i.tmin), RAbs(S(p) (-) i.tmax))
                     tol(p) == RLit("2e-7") (.) (RAbs(S(p)) (+) RAbs(i.tmin) (+) RAbs(i.tmax))
                     close == {p \in cells : D(p) \preceq (i.delta (+) tol(p))}
                     sure == {p \in cells : D(p) \preceq (i.delta (-) tol(p)) \/ (REq(D(p), i.delta) /\ REq(RF32(D(p)), D(p)))}
                 IN IF inside # {} THEN LET n == Cardinality(inside) IN
                         RNear(o, RSum([p \in inside |-> V(p)]) (/) n, Eps (.) (n + 3) (.) (RSum([p \in inside |-> RAbs(V(p))]) (/) n), 0)
                    ELSE \/ \E p \in close : REq(o, V(p)) /\ \A q \in sure : D(p) \preceq (D(q) (+) tol(p) (+) tol(q))
                         \/ sure = {} /\ Same(o, x[r][c])

\* ---- local gradients ---------------------------------------------------------------------
CalcGradientOk(e) ==
  LET i == e.in  b == i.base  x == i.values  ny == Len(b)  nx == IF ny = 0 THEN 0 ELSE Len(b[1]) IN
  IF i.hw <= 0 \/ i.min_num < 0 \/ (Valid(i.min_range) /\ i.min_range \prec 0) \/ ny = 0 \/ ~Rect(b, ny, nx) \/ ~Rect(x, ny, nx) THEN IsErr(e)
  ELSE /\ IsOk(e) /\ Rect(e.out, ny, nx)
       /\ \A r \in 1..ny : \A c \in 1..nx :
            LET o == e.out[r][c]
                cells == {p \in (MaxIn({1, r - i.hw})..MinIn({ny, r + i.hw})) \X (MaxIn({1, c - i.hw})..MinIn({nx, c + i.hw})) :
                            Valid(b[p[1]][p[2]]) /\ Valid(x[p[1]][p[2]])}
                n == Cardinality(cells)
                B(p) == b[p[1]][p[2]]  X(p) == x[p[1]][p[2]]
                bs == [p \in cells |-> B(p)]
            IN IF n = 0 \/ n < i.min_num THEN Same(o, i.default)
               ELSE IF i.type = "MinMax" THEN
                 LET lo == RMinOf(bs)  hi == RMaxOf(bs)  range == hi (-) lo IN
                 IF (Valid(i.min_range) /\ RF32(range) \preceq i.min_range) \/ REq(range, 0) THEN Same(o, i.default) \/ (Missing(i.min_range) /\ REq(range, 0) /\ Missing(o))
                 ELSE \E p \in cells, q \in cells : REq(B(p), hi) /\ REq(B(q), lo) /\
                        RNear(o, (X(p) (-) X(q)) (/) range, (Eps (.) (RAbs(X(p)) (+) RAbs(X(q)))) (/) range, RLit("1e-6"))
               ELSE
                 LET mx == RSum(bs) (/) n
                     my == RSum([p \in cells |-> X(p)]) (/) n
                     sxy == RSum([p \in cells |-> (B(p) (-) mx) (.) (X(p) (-) my)]) (/) n
                     sxx == RSum([p \in cells |-> (B(p) (-) mx) (.) (B(p) (-) mx)]) (/) n
                     mxx == RSum([p \in cells |-> B(p) (.) B(p)]) (/) n
                     axy == RSum([p \in cells |-> RAbs(B(p) (.) X(p))]) (/) n
                     ax == RSum([p \in cells |-> RAbs(B(p))]) (/) n
                     ay == RSum([p \in cells |-> RAbs(X(p))]) (/) n
                     \* single precision of the moments the slope is made of
                     ed == RLit("5e-7") (.) 2 (.) mxx
                     en == RLit("5e-7") (.) (axy (+) (ax (.) ay))
                     low == RMax2(0, sxx (-) ed)
                 IN IF REq(sxx, 0) /\ REq(ed, 0) THEN Same(o, i.default)
                    ELSE \/ (sxx \preceq (RNum(2, 1) (.) ed))
                         \/ Valid(i.min_range) /\ RSqrt(low) \prec i.min_range /\ Same(o, i.default)
                         \/ ~(Valid(i.min_range) /\ RSqrt(sxx (+) ed) \prec i.min_range)
                            /\ RNear(o, sxy (/) sxx, (en (/) low) (+) ((RAbs(sxy) (.) ed) (/) (low (.) sxx)), RLit("1e-6"))

\* ---- probabilities ---------------------------------------------------------------------------
Comparisons == {"Lt", "Leq", "Gt", "Geq"}
Meets(x, cmp, y) == CASE cmp = "Lt" -> x \prec y [] cmp = "Leq" -> x \preceq y [] cmp = "Gt" -> x \succ y [] cmp = "Geq" -> x \succeq y
EnsFits(o, x) == Rect(x, OY(o), OX(o)) /\ \A y \in 1..OY(o) : \A c \in 1..OX(o) : Len(x[y][c]) = Len(x[1][1])
ProbabilityOk(st, e) ==
  LET i == e.in  F == ArgGrid(st, i.from)  T == ArgGrid(st, i.to) IN
  IF ~ArgOk(st, "g", i.from) \/ ~ArgOk(st, "g", i.to) \/ i.cmp \notin Comparisons THEN IsErr(e)
  ELSE IF EmptyObj(T) THEN IsErr(e) \/ (IsOk(e) /\ (Len(e.out) = 0 \/ Len(e.out[1]) = 0))
  ELSE IF EmptyObj(F) \/ ~EnsFits(F, i.x) \/ ~FitsObj(T, i.threshold) THEN IsErr(e)
  ELSE IF ~SameType(F, T) THEN MixedErr(e, F, T)
  ELSE /\ IsOk(e) /\ FitsObj(T, e.out)
       /\ LET pos == Pos(F) IN
          \A k \in 1..Num(T) :
            LET o == ValAt(T, e.out, k)  th == ValAt(T, i.threshold, k)
                nn == NearestSet(DistsTo(pos, XYZ(F.type, LatAt(T, k), LonAt(T, k))), F.type)
            IN \E j \in nn : LET v == ValidOf(ValAt(F, i.x, j))  n == Len(v) IN
                 IF n = 0 \/ Missing(th) THEN IsNaN(o)
                 ELSE Within(o, 0, 1) /\ RNear(o, RNum(Cardinality({m \in 1..n : Meets(v[m], i.cmp, th)}), n), RLit("1e-7"), 0)
MaskOk(st, e, quantile) ==
  LET i == e.in  F == ArgGrid(st, i.from)  T == ArgGrid(st, i.to) IN
  IF ~ArgOk(st, "g", i.from) \/ ~ArgOk(st, "g", i.to) \/ i.cmp \notin Comparisons THEN IsErr(e)
  ELSE IF EmptyObj(T) THEN IsErr(e) \/ (IsOk(e) /\ (Len(e.out) = 0 \/ Len(e.out[1]) = 0))
  ELSE IF EmptyObj(F) \/ ~EnsFits(F, i.xt) \/ ~EnsFits(F, i.xf) \/ ~EnsFits(F, i.tv) \/ Len(i.xt[1][1]) # Len(i.xf[1][1]) \/ Len(i.xt[1][1]) # Len(i.tv[1][1])
          \/ ~FitsObj(T, i.threshold) THEN IsErr(e)
  ELSE IF quantile /\ BadLevel(i.q) THEN IsErr(e)
  ELSE IF ~quantile /\ i.stat \notin Statistics THEN IsErr(e) \/ (i.stat = "Quantile" /\ IsOk(e))
  ELSE IF ~SameType(F, T) THEN MixedErr(e, F, T)
  ELSE \/ quantile /\ OddLevel(i.q) /\ IsErr(e)
       \/ /\ IsOk(e) /\ FitsObj(T, e.out)
          /\ LET pos == Pos(F) IN
             \A k \in 1..Num(T) :
               LET o == ValAt(T, e.out, k)  th == ValAt(T, i.threshold, k)
                   nn == NearestSet(DistsTo(pos, XYZ(F.type, LatAt(T, k), LonAt(T, k))), F.type)
               IN \E j \in nn :
                    LET xt == ValAt(F, i.xt, j)  xf == ValAt(F, i.xf, j)  tv == ValAt(F, i.tv, j)
                        w == Tab([m \in 1..Len(xt) |-> IF Missing(tv[m]) \/ Missing(th) THEN RNaN ELSE IF Meets(tv[m], i.cmp, th) THEN xt[m] ELSE xf[m]])
                    IN IF quantile THEN QuantileOk(o, w, i.q) ELSE StatOk(o, i.stat, w, 0)

\* ---- points onto a grid -----------------------------------------------------------------------
Sub(maybe) == IF Cardinality(maybe) > 10 THEN {{}, maybe} ELSE SUBSET maybe
ValuesOf(x, S) == [k \in 1..Cardinality(S) |-> x[CHOOSE j \in S : Cardinality({m \in S : m < j}) = k - 1]]
GriddingOk(st, e, kind) ==
  LET i == e.in  T == Arg(st, kind, i.to)  P == ArgPoints(st, i.points) IN
  IF ~ArgOk(st, kind, i.to) \/ ~ArgOk(st, "p", i.points) \/ Len(i.x) # Num(P) \/ Missing(i.radius) \/ i.radius \prec 0 \/ i.min_num < 0 \/ i.stat \notin Statistics THEN IsErr(e)
  ELSE IF ~SameType(T, P) THEN MixedErr(e, T, P)
  ELSE /\ IsOk(e) /\ (FitsObj(T, e.out) \/ (EmptyObj(T) /\ Len(e.out) = 0))
       /\ LET pos == Pos(P) IN
          \A k \in 1..Num(T) :
            LET o == ValAt(T, e.out, k)  ds == DistsTo(pos, XYZ(T.type, LatAt(T, k), LonAt(T, k)))
                sure == SureIn(ds, T.type, i.radius)  maybe == MaybeIn(ds, T.type, i.radius)
            IN Cardinality(maybe) > 10 \/ \E M \in Sub(maybe) : LET S == sure \cup M IN
                 IF i.min_num > 0 /\ Cardinality(S) < i.min_num THEN IsNaN(o) ELSE StatOk(o, i.stat, ValuesOf(i.x, S), 0)
GriddingNearestOk(st, e, kind) ==
  LET i == e.in  T == Arg(st, kind, i.to)  P == ArgPoints(st, i.points) IN
  IF ~ArgOk(st, kind, i.to) \/ ~ArgOk(st, "p", i.points) \/ Len(i.x) # Num(P) \/ i.min_num < 0 \/ i.stat \notin Statistics THEN IsErr(e)
  ELSE IF ~SameType(T, P) THEN MixedErr(e, T, P)
  ELSE /\ IsOk(e) /\ (FitsObj(T, e.out) \/ (EmptyObj(T) /\ Len(e.out) = 0))
       /\ EmptyObj(T) \/
          LET pos == Pos(T)
              near == Tab([p \in 1..Num(P) |-> NearestSet(DistsTo(pos, XYZ(T.type, P.lats[p], P.lons[p])), T.type)])
              O(k) == ValAt(T, e.out, k)
          IN /\ \A k \in 1..Num(T) :
                  LET sure == {p \in 1..Num(P) : near[p] = {k}}  maybe == {p \in 1..Num(P) : k \in near[p] /\ near[p] # {k}} IN
                  Cardinality(maybe) > 10 \/ \E M \in Sub(maybe) : LET S == sure \cup M IN
                    IF S = {} THEN IsNaN(O(k)) \/ (i.stat = "Count" /\ REq(O(k), 0))
                    ELSE IF Cardinality(S) < i.min_num THEN IsNaN(O(k))
                    ELSE StatOk(O(k), i.stat, ValuesOf(i.x, S), 0)
             \* each point goes to one location only
             /\ (i.stat = "Count" /\ i.min_num <= 1) =>
                  RNear(RSum([k \in 1..Num(T) |-> IF Valid(O(k)) THEN O(k) ELSE 0]), Len(ValidOf(i.x)), RLit("1e-3"), 0)
CountOk(st, e) ==
  LET i == e.in  F == Arg(st, i.fk, i.from)  T == Arg(st, i.tk, i.to) IN
  IF ~ArgOk(st, i.fk, i.from) \/ ~ArgOk(st, i.tk, i.to) THEN IsErr(e)
  ELSE IF ~SameType(F, T) THEN MixedErr(e, F, T)
  ELSE IF Missing(i.radius) THEN IsErr(e) \/ IsOk(e)
  ELSE IF i.radius \prec 0 THEN IsErr(e) \/ (IsOk(e) /\ OutFits(T, e.out) /\ \A k \in 1..Num(T) : REq(ValAt(T, e.out, k), 0))
  ELSE /\ IsOk(e) /\ OutFits(T, e.out)
       /\ LET pos == Pos(F) IN
          \A k \in 1..Num(T) :
            LET ds == DistsTo(pos, XYZ(F.type, LatAt(T, k), LonAt(T, k)))
                a == Cardinality(SureIn(ds, F.type, i.radius))  b == Cardinality(MaybeIn(ds, F.type, i.radius))
            IN Within(ValAt(T, e.out, k), a, a + b)
DistanceOk(st, e) ==
  LET i == e.in  F == Arg(st, i.fk, i.from)  T == Arg(st, i.tk, i.to) IN
  IF ~ArgOk(st, i.fk, i.from) \/ ~ArgOk(st, i.tk, i.to) THEN IsErr(e)
  ELSE IF ~SameType(F, T) THEN MixedErr(e, F, T)
  ELSE IF i.num <= 0 THEN IsErr(e)
  ELSE /\ IsOk(e) /\ OutFits(T, e.out)
       /\ LET pos == Pos(F)  n == Num(F) IN
          \A k \in 1..Num(T) :
            n = 0 \/ LET ds == RSort(DistsTo(pos, XYZ(F.type, LatAt(T, k), LonAt(T, k)))) IN PathNear(F.type, ValAt(T, e.out, k), ds[MinIn({n, i.num})])

\* ---- filling and doping ---------------------------------------------------------------------------
FillOk(st, e) ==
  LET i == e.in  G == ArgGrid(st, i.grid)  P == ArgPoints(st, i.points) IN
  IF ~ArgOk(st, "g", i.grid) \/ ~ArgOk(st, "p", i.points) \/ ~FitsObj(G, i.x) \/ Len(i.radii) # Num(P) \/ (\E k \in 1..Len(i.radii) : i.radii[k] \prec 0) THEN IsErr(e)
  ELSE IF ~SameType(G, P) THEN MixedErr(e, G, P)
  ELSE /\ IsOk(e) /\ FitsObj(G, e.out)
       /\ LET pos == Pos(P) IN
          \A k \in 1..Num(G) :
            LET o == ValAt(G, e.out, k)  x == ValAt(G, i.x, k)
                ds == DistsTo(pos, XYZ(G.type, LatAt(G, k), LonAt(G, k)))
                sure == \E p \in 1..Num(P) : (ds[p] (+) DTol(G.type, i.radii[p])) \prec i.radii[p]
                maybe == \E p \in 1..Num(P) : ds[p] \preceq (i.radii[p] (+) DTol(G.type, i.radii[p]))
                In == Same(o, IF i.outside THEN x ELSE i.value)
                Out == Same(o, IF i.outside THEN i.value ELSE x)
            IN IF sure THEN In ELSE IF maybe THEN In \/ Out ELSE Out
FillMissingOk(e) ==
  LET x == e.in.x  ny == Len(x)  nx == IF ny = 0 THEN 0 ELSE Len(x[1])
      \* by interpolation along a line of values, at c
      Line(s, c) == LET a == {k \in 1..Len(s) : k < c /\ Valid(s[k])}  b == {k \in 1..Len(s) : k > c /\ Valid(s[k])} IN
                    IF a = {} \/ b = {} THEN RNaN
                    ELSE LET p == MaxIn(a)  q == MinIn(b) IN s[p] (+) ((s[q] (-) s[p]) (.) RNum(c - p, q - p))
  IN /\ IsOk(e) /\ Rect(e.out, ny, nx)
     /\ \A r \in 1..ny : \A c \in 1..nx :
          IF Valid(x[r][c]) THEN RNear(e.out[r][c], x[r][c], 0, RLit("1.2e-7"))
          ELSE LET col == Tab([k \in 1..ny |-> x[k][c]])
                   a == Line(x[r], c)  b == Line(col, r)
                   tol == RLit("8e-7") (.) (MaxAbs(ValidOf(x[r])) (+) MaxAbs(ValidOf(col)))
               IN IF IsNaN(a) /\ IsNaN(b) THEN Missing(e.out[r][c])
                  ELSE RNear(e.out[r][c], IF IsNaN(a) THEN b ELSE IF IsNaN(b) THEN a ELSE (a (+) b) (/) 2, tol, 0)
\* a later point's value replaces an earlier one's
DopingOk(st, e, circle) ==
  LET i == e.in  G == ArgGrid(st, i.grid)  P == ArgPoints(st, i.points)
      ext == IF circle THEN i.radii ELSE i.hw
  IN IF ~ArgOk(st, "g", i.grid) \/ ~ArgOk(st, "p", i.points) \/ ~FitsObj(G, i.x) \/ Len(ext) # Num(P) \/ Len(i.obs) # Num(P)
        \/ (Valid(i.max_elev) /\ i.max_elev \prec 0) \/ (\E k \in 1..Len(ext) : ext[k] \prec 0) THEN IsErr(e)
     ELSE IF ~SameType(G, P) THEN MixedErr(e, G, P)
     ELSE /\ IsOk(e) /\ FitsObj(G, e.out)
          /\ LET pos == Pos(G)
                 ds == Tab([p \in 1..Num(P) |-> DistsTo(pos, XYZ(G.type, P.lats[p], P.lons[p]))])
                 near == Tab([p \in 1..Num(P) |-> IF circle \/ EmptyObj(G) THEN {} ELSE NearestSet(ds[p], G.type)])
                 Sq(p, k, c) == Abs(RowOf(G, c) - RowOf(G, k)) <= ext[p] /\ Abs(ColOf(G, c) - ColOf(G, k)) <= ext[p]
                 Sure(p, k) == IF circle THEN (ds[p][k] (+) DTol(G.type, ext[p])) \prec ext[p] ELSE \A c \in near[p] : Sq(p, k, c)
                 May(p, k) == IF circle THEN ds[p][k] \preceq (ext[p] (+) DTol(G.type, ext[p])) ELSE \E c \in near[p] : Sq(p, k, c)
                 \* "yes", "no", or "any" where an elevation is missing
                 Height(p, k) == IF Missing(i.max_elev) THEN "yes"
                                 ELSE LET a == P.elevs[p]  b == ValAt(G, G.elevs, k) IN
                                      IF Missing(a) \/ Missing(b) THEN "any" ELSE IF RF32(RAbs(a (-) b)) \succ i.max_elev THEN "no" ELSE "yes"
             IN \A k \in 1..Num(G) :
                  LET o == ValAt(G, e.out, k)
                      sure == {p \in 1..Num(P) : Sure(p, k) /\ Height(p, k) = "yes"}
                      may == {p \in 1..Num(P) : May(p, k) /\ Height(p, k) # "no"}
                      last == IF sure = {} THEN 0 ELSE MaxIn(sure)
                  IN \/ Same(o, IF last = 0 THEN ValAt(G, i.x, k) ELSE i.obs[last])
                     \/ \E p \in may : p > last /\ Same(o, i.obs[p])
=============================================================================
