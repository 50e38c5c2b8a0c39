-------------------------------- MODULE Util --------------------------------
(* Operations on plain vectors: statistics, quantiles, look-up,              *)
(* interpolation, initialisation, thresholds.                                *)
EXTENDS Stats

IsErr(e) == e.r = "err"
IsOk(e) == e.r = "ok"

\* ---- statistics -----------------------------------------------------------
CalcStatisticOk(e) ==
  IF e.in.stat \notin Statistics THEN IsErr(e)
  ELSE IsOk(e) /\ StatOk(e.out, e.in.stat, e.in.x, 0)
CalcStatistic2Ok(e) ==
  IF e.in.stat \notin Statistics THEN IsErr(e) \/ (Len(e.in.x) = 0 /\ IsOk(e) /\ Len(e.out) = 0)
  ELSE /\ IsOk(e) /\ Len(e.out) = Len(e.in.x)
       /\ \A i \in 1..Len(e.out) : StatOk(e.out[i], e.in.stat, e.in.x[i], 0)
CalcQuantileOk(e) ==
  IF BadLevel(e.in.q) THEN IsErr(e)
  ELSE (OddLevel(e.in.q) /\ IsErr(e)) \/ (IsOk(e) /\ QuantileOk(e.out, e.in.x, e.in.q))
CalcQuantile2Ok(e) ==
  IF Len(e.in.x) = 0 THEN (IsOk(e) /\ Len(e.out) = 0) \/ (BadLevel(e.in.q) /\ IsErr(e))
  ELSE IF BadLevel(e.in.q) THEN IsErr(e)
  ELSE \/ OddLevel(e.in.q) /\ IsErr(e)
       \/ /\ IsOk(e) /\ Len(e.out) = Len(e.in.x)
          /\ \A i \in 1..Len(e.out) : QuantileOk(e.out[i], e.in.x[i], e.in.q)
\* a field of samples with a level for each cell
CalcQuantile3Ok(e) ==
  LET x == e.in.x  q == e.in.q IN
  IF ~(Len(x) = Len(q) /\ (Len(x) > 0 => Len(x[1]) = Len(q[1]))) THEN IsErr(e)
  ELSE IF Len(x) = 0 \/ Len(x[1]) = 0 THEN IsOk(e) /\ (Len(e.out) = 0 \/ Len(e.out[1]) = 0)
  ELSE IF \E i \in 1..Len(q) : \E j \in 1..Len(q[1]) : BadLevel(q[i][j])
       THEN IsErr(e) \/ (Len(x[1][1]) = 0 /\ IsOk(e))
  ELSE \/ IsErr(e) /\ \E i \in 1..Len(q) : \E j \in 1..Len(q[1]) : OddLevel(q[i][j])
       \/ /\ IsOk(e) /\ Len(e.out) = Len(x)
          /\ \A i \in 1..Len(x) : /\ Len(e.out[i]) = Len(x[1])
                                  /\ \A j \in 1..Len(x[1]) : QuantileOk(e.out[i][j], x[i][j], q[i][j])
NumMissingOk(e) ==
  LET f == Flat2(e.in.x) IN IsOk(e) /\ e.out = Cardinality({i \in 1..Len(f) : Missing(f[i])})
IsValidOk(e) == IsOk(e) /\ \A i \in 1..Len(e.in.x) : e.out[i] = Valid(e.in.x[i])

\* ---- look-up --------------------------------------------------------------
\* the table is sorted; missing entries are passed over; without an entry the index is undefined
LowerIndexOk(e) ==
  LET v == e.in.v  ix == {i \in 1..Len(v) : Valid(v[i]) /\ v[i] \preceq e.in.x} IN
  IsOk(e) /\ IF ~Sorted(ValidOf(v)) THEN TRUE ELSE IF ix = {} \/ Missing(e.in.x) THEN TRUE
             ELSE LET m == MaxIn(ix) IN
                  \* of several equal entries the first
                  e.out + 1 = IF REq(v[m], e.in.x) THEN MinIn({i \in ix : REq(v[i], e.in.x)}) ELSE m
UpperIndexOk(e) ==
  LET v == e.in.v  ix == {i \in 1..Len(v) : Valid(v[i]) /\ e.in.x \preceq v[i]} IN
  IsOk(e) /\ IF ~Sorted(ValidOf(v)) THEN TRUE ELSE IF ix = {} \/ Missing(e.in.x) THEN TRUE
             ELSE LET m == MinIn(ix) IN
                  e.out + 1 = IF REq(v[m], e.in.x) THEN MaxIn({i \in ix : REq(v[i], e.in.x)}) ELSE m
Interpolate0Ok(e) ==
  IF Len(e.in.X) # Len(e.in.Y) THEN IsErr(e) \/ (Missing(e.in.x) /\ IsOk(e) /\ IsNaN(e.out))
  ELSE IsOk(e) /\ InterpOk(e.out, e.in.x, e.in.X, e.in.Y)
Interpolate1Ok(e) ==
  IF Len(e.in.X) # Len(e.in.Y) THEN IsErr(e)
  ELSE /\ IsOk(e) /\ Len(e.out) = Len(e.in.x)
       /\ \A i \in 1..Len(e.in.x) : InterpOk(e.out[i], e.in.x[i], e.in.X, e.in.Y)
       \* monotone where the curve is
       /\ Sorted(e.in.Y) => \A i, j \in 1..Len(e.in.x) :
            (Valid(e.in.x[i]) /\ Valid(e.in.x[j]) /\ e.in.x[i] \preceq e.in.x[j] /\ Len(e.in.X) > 0) =>
              (e.out[i] \preceq e.out[j] \/ RNear(e.out[i], e.out[j], Tiny, Eps (.) 4))

\* ---- initialisation and sizes ---------------------------------------------
InitOk(e) ==
  LET d3 == e.in.k \in {"vec3", "ivec3"} IN
  IF e.in.y < 0 \/ e.in.x < 0 \/ (d3 /\ e.in.e < 0) THEN IsErr(e) \/ IsOk(e)
  ELSE IsOk(e) /\ Len(e.out) = e.in.y /\ \A i \in 1..e.in.y :
    /\ Len(e.out[i]) = e.in.x
    /\ \A j \in 1..e.in.x : IF d3 THEN Len(e.out[i][j]) = e.in.e /\ \A k \in 1..e.in.e : Same(e.out[i][j][k], e.in.v)
                            ELSE Same(e.out[i][j], e.in.v)
GetStatisticOk(e) ==
  LET m == [mean |-> 0, min |-> 10, max |-> 30, median |-> 20, quantile |-> 40, std |-> 50, sum |-> 70, count |-> 80, randomchoice |-> 90]
  IN IsOk(e) /\ IF e.in.name = "variance" THEN e.out \in {60, -1} ELSE e.out = IF e.in.name \in DOMAIN m THEN m[e.in.name] ELSE -1

\* ---- evenly spaced quantiles ------------------------------------------------
\* non-decreasing values out of the given ones, among them the lowest, and the highest where more than one
\* is asked for; all distinct values if that many are asked for, and never more than asked for
EvenQuantilesOk(o, v, num) ==
  IF \E k \in 1..Len(v) : IsNaN(v[k]) THEN TRUE
  ELSE LET sorted == RSort(v)
      n == Len(v)
      distinct == Cardinality({i \in 1..n : i = 1 \/ ~REq(sorted[i], sorted[i - 1])})
  IN IF n = 0 \/ num = 0 THEN Len(o) = 0
     ELSE /\ Len(o) >= 1
          /\ Sorted(o)
          /\ \A i \in 1..Len(o) : \E j \in 1..n : REq(o[i], v[j])
          /\ REq(o[1], sorted[1])
          /\ num >= 2 => REq(o[Len(o)], sorted[n])
          /\ num >= n => Len(o) = distinct
          /\ num < n => Len(o) <= num
          /\ Cardinality({i \in 1..Len(o) : i = 1 \/ ~REq(o[i], o[i - 1])}) <= distinct
=============================================================================
