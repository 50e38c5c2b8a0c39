------------------------------- MODULE Stats -------------------------------
(* Missing values, elementary statistics, quantiles, piecewise-linear        *)
(* interpolation, and the closeness in which single-precision results are    *)
(* compared.  A missing value is NaN or infinite.                            *)
EXTENDS RealNum, FiniteSets

Valid(x) == IsFin(x)
Missing(x) == ~IsFin(x)
ValidOf(s) == SelectSeq(s, Valid)
AllOf(n, P(_)) == \A i \in 1..n : P(i)
ToSeq(f) == [i \in 1..Len(f) |-> f[i]]
SumAbs(s) == RSum([i \in 1..Len(s) |-> RAbs(s[i])])
MaxAbs(s) == IF Len(s) = 0 THEN 0 ELSE RMaxOf([i \in 1..Len(s) |-> RAbs(s[i])])
Flat2(f) == IF Len(f) = 0 \/ Len(f[1]) = 0 THEN <<>>
            ELSE [k \in 1..(Len(f) * Len(f[1])) |-> f[((k - 1) \div Len(f[1])) + 1][((k - 1) % Len(f[1])) + 1]]
\* single-precision rounding unit, with room for a few operations
Eps == RLit("2.4e-7")
Tiny == RLit("1e-37")

Same(x, y) == \/ IsNaN(x) /\ IsNaN(y)
              \/ ~IsNaN(x) /\ ~IsNaN(y) /\ REq(x, y)
SameSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Same(s[i], t[i])
Within(x, lo, hi) == lo \preceq x /\ x \preceq hi

\* ---- statistics of a sequence of valid values ---------------------------
Mean(v) == RSum(v) (/) Len(v)
Variance(v) == LET m == Mean(v) IN RSum([i \in 1..Len(v) |-> (v[i] (-) m) (.) (v[i] (-) m)]) (/) Len(v)
Range(v) == RMaxOf(v) (-) RMinOf(v)
\* s sorted and not empty
QuantileSorted(s, q) ==
  LET n == Len(s)
      pos == q (.) (n - 1)
      lo == RFloor(pos)
      hi == RCeil(pos)
  IN IF n = 1 \/ lo = hi THEN s[lo + 1]
     ELSE s[lo + 1] (+) ((pos (-) lo) (.) (s[hi + 1] (-) s[lo + 1]))
QuantileOf(v, q) == QuantileSorted(RSort(v), q)

\* o is the value of the statistic of the values w (missing ones among them); the
\* accumulated rounding may reach slack as well
StatOk(o, stat, w, slack) ==
  LET v == ValidOf(w)  n == Len(v) IN
  IF stat = "Count" THEN REq(o, n)
  ELSE IF n = 0 THEN IsNaN(o)
  ELSE CASE stat = "Sum" -> RNear(o, RSum(v), slack (+) (Eps (.) (n + 3) (.) SumAbs(v)), 0)
         [] stat = "Mean" -> RNear(o, Mean(v), slack (+) (Eps (.) (n + 3) (.) (SumAbs(v) (/) n)), 0)
         [] stat = "Min" -> REq(o, RMinOf(v))
         [] stat = "Max" -> REq(o, RMaxOf(v))
         [] stat = "Median" -> RNear(o, QuantileOf(v, RNum(1, 2)), Eps (.) (n + 3) (.) MaxAbs(v), 0)
         [] stat = "Variance" -> ~IsNaN(o) /\ 0 \preceq o /\ RNear(o, Variance(v), slack (+) (Eps (.) (4 * n + 8) (.) (Range(v) (.) Range(v))), Eps)
         [] stat = "Std" -> ~IsNaN(o) /\ 0 \preceq o /\ RNear(o (.) o, Variance(v), slack (+) (Eps (.) (4 * n + 8) (.) (Range(v) (.) Range(v))), Eps (.) 8)
         [] stat = "RandomChoice" -> \E i \in 1..n : REq(o, v[i])
         [] OTHER -> FALSE
Statistics == {"Mean", "Min", "Median", "Max", "Std", "Variance", "Sum", "Count", "RandomChoice"}

QuantileOk(o, w, q) ==
  IF Missing(q) THEN IsNaN(o)
  ELSE LET v == ValidOf(w)  n == Len(v) IN
       IF n = 0 THEN IsNaN(o)
       ELSE IF REq(q, 0) THEN REq(o, RMinOf(v))
       ELSE IF REq(q, 1) THEN REq(o, RMaxOf(v))
       ELSE /\ RNear(o, QuantileOf(v, q), (Eps (.) (n + 3) (.) Range(v)) (+) (Eps (.) MaxAbs(v)), 0)
            /\ ~(o \prec RMinOf(v)) \/ RNear(o, RMinOf(v), 0, Eps)
            /\ ~(o \succ RMaxOf(v)) \/ RNear(o, RMaxOf(v), 0, Eps)
BadLevel(q) == Valid(q) /\ (q \prec 0 \/ q \succ 1)
\* an infinite level may be refused or taken for a missing one
OddLevel(q) == Missing(q) /\ ~IsNaN(q)

\* ---- piecewise-linear interpolation ---------------------------------------
\* X is sorted; where X does not move over a stretch the value is the mean of the values at its two
\* ends, or that of the inner end where the stretch is at one end of the curve only
MaxIn(S) == CHOOSE x \in S : \A y \in S : y <= x
MinIn(S) == CHOOSE x \in S : \A y \in S : x <= y
Interp(x, X, Y) ==
  LET n == Len(X) IN
  IF n = 0 \/ Missing(x) THEN RNaN
  ELSE IF x \succ X[n] THEN Y[n]
  ELSE IF x \prec X[1] THEN Y[1]
  ELSE LET eq == {i \in 1..n : REq(X[i], x)} IN
       IF eq # {} THEN
         LET a == MinIn(eq)  b == MaxIn(eq) IN
         IF a = 1 /\ b = n THEN (Y[a] (+) Y[b]) (/) 2
         ELSE IF a = 1 THEN Y[b]
         ELSE IF b = n THEN Y[a]
         ELSE (Y[a] (+) Y[b]) (/) 2
       ELSE LET a == MaxIn({i \in 1..n : X[i] \prec x})  b == a + 1
            IN Y[a] (+) ((Y[b] (-) Y[a]) (.) ((x (-) X[a]) (/) (X[b] (-) X[a])))
\* rounding of x against steep stretches of the curve
InterpTol(x, X, Y) == Eps (.) 8 (.) MaxAbs(Y)
InterpOk(o, x, X, Y) ==
  IF Len(X) = 0 \/ Missing(x) \/ \A k \in 1..Len(X) : IsNaN(X[k]) THEN IsNaN(o)
  ELSE IF \E k \in 1..Len(X) : Missing(X[k]) THEN TRUE
  ELSE RNear(o, Interp(x, X, Y), InterpTol(x, X, Y), Eps)
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] \preceq s[i + 1]
=============================================================================
