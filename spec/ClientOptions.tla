--------------------------- MODULE ClientOptions ---------------------------
(* Key-value options as a state machine, and plain helpers.                  *)
(* An option set is [m, used, may]: the pairs, the keys certainly asked for, *)
(* and those possibly asked for.                                             *)
EXTENDS ClientBase
OptionOps == {"o_new", "o_adds", "o_add", "o_addi", "o_addf", "o_clear", "o_str", "o_has", "o_check", "o_eq", "o_copy", "o_get", "o_gets", "o_req", "o_reqs"}
UtilOps == {"split", "haschar", "date", "time", "unix", "calcdate", "ustat", "udist", "ulogit", "uinterp", "uinverse", "uregress", "uindex", "uvalid"}

KeysOf(m) == {m[i].k : i \in 1..Len(m)}
OptionAllowed(st, e) ==
  IF e.op \in {"o_new"} THEN IsOk(e)
  ELSE IF e.op = "o_eq" THEN IsOk(e) /\ e.out.eq = (PairSet(st.opts[e.in.a].m) = PairSet(st.opts[e.in.b].m)) /\ e.out.ne = ~e.out.eq
  ELSE LET o == st.opts[e.in.id]  m == o.m IN
  CASE e.op \in {"o_adds", "o_add", "o_addi", "o_addf", "o_clear", "o_copy"} -> IsOk(e)
       \* every pair is written once, and reads back
    [] e.op = "o_str" -> IsOk(e) /\ LET w == Words(e.out) IN
         /\ Len(w) = Len(m)
         /\ (\A p \in PairSet(m) : Find(p[1], " ") = 0 /\ Find(p[2], " ") = 0 /\ Find(p[1], "=") = 0) => PairSet(Parse(e.out)) = PairSet(m)
    [] e.op = "o_has" -> IsOk(e) /\ e.out = Has(m, e.in.k)
    [] e.op = "o_check" -> IsOk(e) /\ (KeysOf(m) \subseteq o.used => e.out) /\ (~(KeysOf(m) \subseteq o.may) => ~e.out)
    [] e.op \in {"o_get", "o_req"} ->
         IF ~Has(m, e.in.k) THEN IF e.op = "o_req" THEN IsErr(e) ELSE IsOk(e) /\ ~e.out.found
         ELSE IsOk(e) /\ e.out.found /\ TypedOk(e.out.v, Get(m, e.in.k), e.in.t)
    [] e.op \in {"o_gets", "o_reqs"} ->
         IF ~Has(m, e.in.k) THEN IF e.op = "o_reqs" THEN IsErr(e) ELSE IsOk(e) /\ ~e.out.found /\ Len(e.out.v) = 0
         ELSE IsOk(e) /\ e.out.found /\ LET x == Elements(Get(m, e.in.k)) IN
              (\A i \in 1..Len(x) : Len(x[i]) > 0) => Len(e.out.v) = Len(x) /\ \A i \in 1..Len(x) : TypedOk(e.out.v[i], x[i], e.in.t)
    [] OTHER -> FALSE
OptionAfter(st, e) ==
  LET set(id, o) == [st EXCEPT !.opts = With(st.opts, id, o)]
      pairs(id, m) == set(id, [st.opts[id] EXCEPT !.m = m])
      used(id, k) == IF Has(st.opts[id].m, k) THEN set(id, [st.opts[id] EXCEPT !.used = @ \cup {k}, !.may = @ \cup {k}]) ELSE st
  IN CASE e.op = "o_new" -> set(e.in.id, [m |-> Parse(e.in.s), used |-> {}, may |-> {}])
       [] e.op = "o_adds" -> pairs(e.in.id, PutWords(st.opts[e.in.id].m, Words(e.in.s)))
       [] e.op = "o_add" -> pairs(e.in.id, Put(st.opts[e.in.id].m, e.in.k, e.in.v))
          \* written by the program itself, then read by the characters given with the number
       [] e.op \in {"o_addi", "o_addf"} -> pairs(e.in.id, Put(st.opts[e.in.id].m, e.in.k, e.in.s))
       [] e.op = "o_clear" -> set(e.in.id, [st.opts[e.in.id] EXCEPT !.m = <<>>, !.used = {}])
       [] e.op = "o_copy" -> set(e.in.to, [m |-> st.opts[e.in.id].m, used |-> {}, may |-> {}])
       [] e.op \in {"o_get", "o_gets", "o_req", "o_reqs"} -> used(e.in.id, e.in.k)
       [] e.op = "o_eq" -> LET both(i) == [st.opts[i] EXCEPT !.may = KeysOf(@.m) \cup @]
                           IN [st EXCEPT !.opts = With(With(st.opts, e.in.a, [st.opts[e.in.a] EXCEPT !.may = @ \cup KeysOf(st.opts[e.in.a].m)]),
                                                       e.in.b, [st.opts[e.in.b] EXCEPT !.may = @ \cup KeysOf(st.opts[e.in.b].m)])]
       [] OTHER -> st

\* ---- dates --------------------------------------------------------------------
\* days from 1970-01-01 of a date of the Gregorian calendar, and back by search in a window of days
DaysOf(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      doy == (153 * (m + (IF m > 2 THEN 0 - 3 ELSE 9)) + 2) \div 5 + d - 1
  IN era * 146097 + yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy - 719468
DateDays(n) == DaysOf(n \div 10000, (n \div 100) % 100, n % 100)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
IsDate(n) == LET y == n \div 10000  m == (n \div 100) % 100  d == n % 100 IN y \in 1400..9999 /\ m \in 1..12 /\ d \in 1..MonthLen(y, m)
ClockOf(s) == (s \div 3600) * 10000 + ((s \div 60) % 60) * 100 + (s % 60)
SecondsOf(c) == (c \div 10000) * 3600 + ((c \div 100) % 100) * 60 + (c % 100)

UStat == [mean |-> "Mean", min |-> "Min", max |-> "Max", median |-> "Median", std |-> "Std", sum |-> "Sum"]
CTiny == RLit("1e-6")
CArc(o, a) == PathNear("geo", o, RDist(XYZ("geo", a[1], a[2]), XYZ("geo", a[3], a[4])))
MaxAbs2(A) == MaxAbs(Flat2(A))
IllConditioned(A) == LET n == Len(A)  X == Tab(RInv(A)) IN n > 0 /\ (~Valid(X[1][1]) \/ ~((n (.) n (.) MaxAbs2(A) (.) MaxAbs2(X)) \prec 20000))
InverseOk(o, A) ==
  LET n == Len(A) IN
  /\ Len(o) = n /\ \A i \in 1..n : Len(o[i]) = n
  /\ IF n = 0 THEN TRUE
     ELSE IF \E i \in 1..n : \E j \in 1..n : CMissing(A[i][j]) THEN \A i \in 1..n : \A j \in 1..n : CMissing(o[i][j])
     ELSE LET X == Tab(RInv(A))  cond == n (.) n (.) MaxAbs2(A) (.) MaxAbs2(X) IN
          (Valid(X[1][1]) /\ cond \prec 20000) => \A i \in 1..n : \A j \in 1..n : RNear(o[i][j], X[i][j], Eps (.) 4 (.) cond (.) MaxAbs2(X), 0)
\* least squares, by the normal equations
RegressOk(o, y, x, const) ==
  LET T == Len(y)
      cols == Tab((IF const THEN <<[t \in 1..T |-> RNum(1, 1)]>> ELSE <<>>) \o x)
      n == Len(cols)
      N == Tab([i \in 1..n |-> Tab([j \in 1..n |-> RDot(cols[i], cols[j])])])
      r == Tab([i \in 1..n |-> RDot(cols[i], y)])
      X == Tab(RInv(N))
      b == Tab([i \in 1..n |-> RDot(X[i], r)])
      cond == n (.) n (.) MaxAbs2(N) (.) MaxAbs2(X)
  IN /\ Len(o) = n
     /\ (n > 0 /\ Valid(X[1][1]) /\ cond \prec RLit("1e8")) => \A i \in 1..n : RNear(o[i], b[i], RLit("1e-15") (.) cond (.) MaxAbs2(X) (.) n (.) MaxAbs(r), RLit("1e-6"))
UtilOk(e) ==
  CASE e.op = "split" -> IsOk(e) /\ e.out = Split(e.in.s, IF "d" \in DOMAIN e.in THEN Range1(e.in.d) ELSE {" "})
    [] e.op = "haschar" -> IsOk(e) /\ e.out = (Find(e.in.s, e.in.c) # 0)
       \* given as days and seconds of the day as well
    [] e.op = "date" -> IsOk(e) /\ IsDate(e.out) /\ DateDays(e.out) = e.in.days
    [] e.op = "time" -> IsOk(e) /\ e.out = ClockOf(e.in.secs)
    [] e.op = "unix" -> IF ~IsDate(e.in.d) THEN IsErr(e) ELSE IsOk(e) /\ REq(e.out, (DateDays(e.in.d) (.) 86400) (+) SecondsOf(e.in.t))
    [] e.op = "calcdate" -> IsOk(e) /\ IsDate(e.out) /\ DateDays(e.out) = DateDays(e.in.d) + RFloor(e.in.h (/) 24)
    [] e.op = "ustat" -> IsOk(e) /\
         IF e.in.stat \in DOMAIN UStat THEN e.out.known /\ StatOk(Cv(e.out.v), UStat[e.in.stat], Cv1(e.in.x), CTiny (.) MaxAbs(ValidOf(Cv1(e.in.x))))
         ELSE IF e.in.stat = "quantile" THEN e.out.known /\ QuantileOk(Cv(e.out.v), Cv1(e.in.x), e.in.q)
         ELSE ~e.out.known
    [] e.op = "udist" ->
         LET a == <<e.in.lat1, e.in.lon1, e.in.lat2, e.in.lon2>> IN
         IF \E i \in 1..4 : CMissing(a[i]) THEN IsOk(e) /\ CMissing(e.out)
         ELSE IF RAbs(a[1]) \succ 90 \/ RAbs(a[3]) \succ 90 \/ RAbs(a[2]) \succ 360 \/ RAbs(a[4]) \succ 360 THEN IsErr(e)
         ELSE IsOk(e) /\ CArc(e.out, a)
    [] e.op = "ulogit" -> IsOk(e) /\
         IF CMissing(e.in.p) \/ e.in.p \preceq 0 \/ 1 \preceq e.in.p THEN CMissing(e.out.l) /\ CMissing(e.out.b)
         ELSE RNear(e.out.l, RLog(e.in.p (/) (1 (-) e.in.p)), CTiny, CTiny) /\ RNear(e.out.b, e.in.p, CTiny, CTiny)
    [] e.op = "uinterp" -> IsOk(e) /\ (\A i \in 1..(Len(e.in.X) - 1) : e.in.X[i] \prec e.in.X[i + 1]) => InterpOk(e.out, e.in.x, e.in.X, e.in.Y)
    [] e.op = "uinverse" -> IF IsErr(e) THEN IllConditioned(e.in.m) ELSE InverseOk(e.out, e.in.m)
    [] e.op = "uregress" -> IF Len(e.in.y) < 2 \/ (\E i \in 1..Len(e.in.x) : Len(e.in.x[i]) # Len(e.in.y)) THEN IsErr(e)
                            ELSE IsOk(e) /\ RegressOk(e.out, e.in.y, e.in.x, e.in.const)
    [] e.op = "uindex" -> IsOk(e) /\ LET v == Cv1(e.in.v)  x == e.in.x
                                         lo == {i \in 1..Len(v) : Valid(v[i]) /\ v[i] \preceq x}  hi == {i \in 1..Len(v) : Valid(v[i]) /\ x \preceq v[i]} IN
                          Sorted(ValidOf(v)) =>
                          /\ IF lo = {} THEN e.out.lo = MV ELSE e.out.lo + 1 = LET m == MaxIn(lo) IN IF REq(v[m], x) THEN MinIn({i \in lo : REq(v[i], x)}) ELSE m
                          /\ IF hi = {} THEN e.out.hi = MV ELSE e.out.hi + 1 = LET m == MinIn(hi) IN IF REq(v[m], x) THEN MaxIn({i \in hi : REq(v[i], x)}) ELSE m
    [] e.op = "uvalid" -> IsOk(e) /\ \A i \in 1..Len(e.in.x) : e.out[i] = CValid(e.in.x[i])
    [] OTHER -> FALSE
=============================================================================
