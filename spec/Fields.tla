------------------------------- MODULE Fields -------------------------------
(* Filters on gridded fields: moving windows and square neighbourhoods.      *)
EXTENDS Util

NY(f) == Len(f)
NX(f) == IF Len(f) = 0 THEN 0 ELSE Len(f[1])
IsField(o, ny, nx) == Len(o) = ny /\ \A y \in 1..ny : Len(o[y]) = nx
EmptyField(o) == Len(o) = 0 \/ Len(o[1]) = 0
IMax(a, b) == IF a >= b THEN a ELSE b
IMin(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

\* ---- moving windows along a row ---------------------------------------------
Win(row, a, b) == [k \in 1..(b - a + 1) |-> row[a + k - 1]]
WindowCell(e, row, x, o, slack) ==
  LET n == Len(row)  h == e.in.length \div 2
      a == IF e.in.before THEN x - e.in.length + 1 ELSE x - h
      b == IF e.in.before THEN x ELSE x + h
      w == Win(row, IMax(1, a), IMin(n, b))
      outside == a < 1 \/ b > n
  IN IF e.in.stat = "Count" THEN StatOk(o, "Count", w, 0)
     ELSE IF e.in.keep /\ \E i \in 1..Len(w) : Missing(w[i]) THEN IsNaN(o)
     ELSE IF e.in.edges /\ outside THEN IsNaN(o)
     ELSE StatOk(o, e.in.stat, w, slack)
WindowOk(e) ==
  LET x == e.in.x  ny == NY(x)  nx == NX(x) IN
  IF e.in.length <= 0 THEN IsErr(e)
  ELSE IF ny = 0 \/ nx = 0 THEN IsOk(e) /\ EmptyField(e.out)
  ELSE IF e.in.length % 2 = 0 /\ ~e.in.before THEN IsErr(e)
  ELSE IF e.in.stat \notin Statistics THEN IsErr(e)
  ELSE /\ IsOk(e) /\ IsField(e.out, ny, nx)
       /\ \A y \in 1..ny :
            LET slack == RLit("1e-13") (.) SumAbs(ValidOf(x[y]))
            IN \A j \in 1..nx : WindowCell(e, x[y], j, e.out[y][j], slack)

\* ---- square neighbourhoods ----------------------------------------------------
Hood(f, y, x, h) ==
  LET y0 == IMax(1, y - h)  y1 == IMin(NY(f), y + h)
      x0 == IMax(1, x - h)  x1 == IMin(NX(f), x + h)
      w == x1 - x0 + 1
  IN [k \in 1..((y1 - y0 + 1) * w) |-> f[y0 + ((k - 1) \div w)][x0 + ((k - 1) % w)]]
\* over all members
Hood3(f, y, x, h) ==
  LET c == Hood(f, y, x, h)  m == Len(f[1][1])
  IN [k \in 1..(Len(c) * m) |-> c[((k - 1) \div m) + 1][((k - 1) % m) + 1]]
Flat3(f) == Hood3(f, 1, 1, NY(f) + NX(f))

NeighbourhoodOk(e) ==
  LET x == e.in.x IN
  IF e.in.hw < 0 \/ e.in.stat = "Quantile" THEN IsErr(e)
  ELSE IF EmptyField(x) THEN (IsOk(e) /\ EmptyField(e.out)) \/ (e.in.stat \notin Statistics /\ IsErr(e))
  ELSE IF e.in.stat \notin Statistics THEN IsErr(e)
  ELSE LET slack == RLit("1e-12") (.) SumAbs(ValidOf(Flat2(x)))
           slack2 == IF e.in.stat \in {"Std", "Variance"} THEN LET v == ValidOf(Flat2(x)) IN IF Len(v) = 0 THEN 0 ELSE RLit("1e-12") (.) Len(v) (.) (Range(v) (.) Range(v)) ELSE slack
       IN /\ IsOk(e) /\ IsField(e.out, NY(x), NX(x))
          /\ \A y \in 1..NY(x) : \A j \in 1..NX(x) : StatOk(e.out[y][j], e.in.stat, Hood(x, y, j, e.in.hw), slack2)
Neighbourhood3Ok(e) ==
  LET x == e.in.x IN
  IF e.in.hw < 0 \/ e.in.stat = "Quantile" THEN IsErr(e)
  ELSE IF EmptyField(x) \/ Len(x[1][1]) = 0 THEN (IsOk(e) /\ EmptyField(e.out)) \/ (e.in.stat \notin Statistics /\ IsErr(e))
  ELSE IF e.in.stat \notin Statistics THEN IsErr(e)
  ELSE LET slack == RLit("1e-12") (.) SumAbs(ValidOf(Flat3(x)))
           v == ValidOf(Flat3(x))
           slack2 == IF e.in.stat \in {"Std", "Variance"} THEN IF Len(v) = 0 THEN 0 ELSE RLit("1e-12") (.) Len(v) (.) (Range(v) (.) Range(v)) ELSE slack
       IN /\ IsOk(e) /\ IsField(e.out, NY(x), NX(x))
          /\ \A y \in 1..NY(x) : \A j \in 1..NX(x) : StatOk(e.out[y][j], e.in.stat, Hood3(x, y, j, e.in.hw), slack2)
NeighbourhoodQuantileOk(e, three) ==
  LET x == e.in.x IN
  IF e.in.hw < 0 THEN IsErr(e)
  ELSE IF EmptyField(x) \/ (three /\ Len(x[1][1]) = 0) THEN (IsOk(e) /\ EmptyField(e.out)) \/ (BadLevel(e.in.q) /\ IsErr(e))
  ELSE IF BadLevel(e.in.q) THEN IsErr(e)
  ELSE \/ OddLevel(e.in.q) /\ IsErr(e)
       \/ /\ IsOk(e) /\ IsField(e.out, NY(x), NX(x))
          /\ \A y \in 1..NY(x) : \A j \in 1..NX(x) :
               QuantileOk(e.out[y][j], IF three THEN Hood3(x, y, j, e.in.hw) ELSE Hood(x, y, j, e.in.hw), e.in.q)

\* ---- quantiles from the fraction at or below each threshold --------------------
FracBelow(v, th) == RNum(Cardinality({i \in 1..Len(v) : v[i] \preceq th}), Len(v))
\* with members, the fraction may be that of all values or the mean of the cells' fractions
MeanFrac(cells, th) ==
  LET c == SelectSeq(cells, LAMBDA m : Len(ValidOf(m)) > 0)
  IN Mean([i \in 1..Len(c) |-> FracBelow(ValidOf(c[i]), th)])
NqfValue(q, fr, T) ==
  IF REq(q, 1) /\ REq(fr[1], 1) THEN T[1]
  ELSE IF REq(q, 0) /\ REq(fr[Len(T)], 0) THEN T[Len(T)]
  ELSE Interp(q, fr, T)
\* the value for a level as little as rounding moves it
NqfBetween(o, q, fr, T) ==
  LET d == RLit("4e-6")
      lo == NqfValue(IF REq(q, 0) THEN q ELSE RMax2(0, q (-) d), fr, T)
      hi == NqfValue(IF REq(q, 1) THEN q ELSE RMin2(1, q (+) d), fr, T)
      flo == NqfValue(RMax2(0, q (-) d), fr, T)
      tol == Eps (.) 8 (.) MaxAbs(T)
  IN (RMin2(lo, flo) (-) tol) \preceq o /\ o \preceq (RMax2(hi, NqfValue(RMin2(1, q (+) d), fr, T)) (+) tol)
NqfCell(o, q, e, three, y, x) ==
  LET T == e.in.t
      cells == Hood(e.in.x, y, x, e.in.hw)
      v == ValidOf(IF three THEN Hood3(e.in.x, y, x, e.in.hw) ELSE cells)
  IN IF (\E t \in 1..Len(T) : Missing(T[t])) \/ ~Sorted(T) THEN TRUE
     ELSE IF Missing(q) \/ Len(v) = 0 THEN IsNaN(o)
     ELSE /\ Within(o, T[1], T[Len(T)])
          /\ IF ~three
             THEN LET fr == [t \in 1..Len(T) |-> RF32(FracBelow(v, T[t]))]
                  IN RNear(o, NqfValue(q, fr, T), Eps (.) 8 (.) MaxAbs(T), 0)
             ELSE \/ LET fr == [t \in 1..Len(T) |-> FracBelow(v, T[t])] IN NqfBetween(o, q, fr, T)
                  \/ LET fr == [t \in 1..Len(T) |-> MeanFrac(cells, T[t])] IN NqfBetween(o, q, fr, T)
NqfOk(e, three, varying) ==
  LET x == e.in.x
      qs == IF varying THEN e.in.q ELSE <<<<e.in.q>>>>
      fixed == NY(qs) = 1 /\ NX(qs) = 1
      Q(y, j) == IF fixed THEN qs[1][1] ELSE qs[y][j]
  IN IF e.in.hw < 0 THEN IsErr(e)
     ELSE IF EmptyField(x) \/ (three /\ Len(x[1][1]) = 0) THEN IsErr(e) \/ (IsOk(e) /\ EmptyField(e.out))
     ELSE IF ~fixed /\ ~(NY(qs) = NY(x) /\ NX(qs) = NX(x)) THEN IsErr(e)
     ELSE IF \E y \in 1..NY(qs) : \E j \in 1..NX(qs) : BadLevel(qs[y][j]) THEN IsErr(e)
     ELSE /\ IsOk(e) /\ IsField(e.out, NY(x), NX(x))
          /\ \A y \in 1..NY(x) : \A j \in 1..NX(x) :
               IF Len(e.in.t) = 0 THEN IsNaN(e.out[y][j]) ELSE NqfCell(e.out[y][j], Q(y, j), e, three, y, j)
ThresholdsOk(e, three) ==
  LET x == e.in.x IN
  IF e.in.num <= 0 THEN IsErr(e)
  ELSE IF EmptyField(x) \/ (three /\ Len(x[1][1]) = 0) THEN IsOk(e) /\ Len(e.out) = 0
  ELSE IsOk(e) /\ EvenQuantilesOk(e.out, ValidOf(IF three THEN Flat3(x) ELSE Flat2(x)), e.in.num)
=============================================================================
