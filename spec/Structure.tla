----------------------------- MODULE Structure -----------------------------
(* Structure functions: the correlation between two locations and the        *)
(* distance beyond which it is zero.  A structure function is a value: the   *)
(* arguments it was made of; one of the session is named by its id.          *)
EXTENDS Geo

StructOf(st, s) == IF "ref" \in DOMAIN s THEN st.structs[s.ref] ELSE s
DefaultRho == RLit("0.0013")
IsSpatial(d) == "grid" \in DOMAIN d /\ ~(Len(d.h) = 1 /\ Len(d.h[1]) = 1 /\ Len(d.v) = 1 /\ Len(d.v[1]) = 1 /\ Len(d.w) = 1 /\ Len(d.w[1]) = 1)
Hmax(d) == Field(d, "hmax", RNaN)
ScaleOk(x) == Valid(x) /\ ~(x \prec 0)
FitsGrid(g, f) == Len(f) = OY(g) /\ \A y \in 1..Len(f) : Len(f[y]) = OX(g)

RECURSIVE StructDefOk(_, _)
StructDefOk(st, s) ==
  LET d == s IN
  CASE "ref" \in DOMAIN s -> s.ref \in DOMAIN st.structs
    [] d.kind = "Multiple" -> StructDefOk(st, d.sh) /\ StructDefOk(st, d.sv) /\ StructDefOk(st, d.sw)
    [] d.kind = "CrossValidation" -> StructDefOk(st, d.s) /\ ScaleOk(d.dist)
    [] "grid" \in DOMAIN d -> LET g == ArgGrid(st, d.grid) IN
         ArgOk(st, "g", d.grid) /\ (IsSpatial(d) => Len(d.h) > 0 /\ FitsGrid(g, d.h) /\ FitsGrid(g, d.v) /\ FitsGrid(g, d.w))
    [] OTHER -> ScaleOk(d.h) /\ ScaleOk(d.v) /\ ScaleOk(d.w) /\ ~(d.kind # "Cressman" /\ Valid(Hmax(d)) /\ Hmax(d) \prec 0)

\* ---- one-dimensional correlations ------------------------------------------------
\* of a distance (not negative) for a length scale; no scale: no decorrelation
Rho1(kind, dist, L) ==
  IF kind = "Linear" THEN (IF Missing(L) \/ L \prec 0 THEN 1 ELSE IF Missing(dist) THEN 0 ELSE 1 (-) ((RNum(1, 1) (-) L) (.) RMin2(1, dist)))
  ELSE IF Missing(L) \/ REq(L, 0) THEN 1
  ELSE IF Missing(dist) THEN 0
  ELSE LET v == dist (/) L IN
       CASE kind = "Barnes" -> RExp(RNum(-1, 2) (.) v (.) v)
         [] kind = "Cressman" -> IF v \succeq 1 THEN 0 ELSE (RNum(1, 1) (-) (v (.) v)) (/) (RNum(1, 1) (+) (v (.) v))
         [] kind = "Soar" -> (RNum(1, 1) (+) v) (.) RExp(RNeg(v))
         [] kind = "Toar" -> (RNum(1, 1) (+) v (+) ((v (.) v) (/) 3)) (.) RExp(RNeg(v))
         [] kind = "Powerlaw" -> RNum(1, 1) (/) (RNum(1, 1) (+) (RNum(1, 2) (.) v (.) v))
Rho1Diff(kind, a, b, L) == IF Valid(a) /\ Valid(b) THEN Rho1(kind, RAbs(a (-) b), L) ELSE 1

\* number of scales at which the correlation has fallen to rho
RECURSIVE Bisect(_, _, _, _, _)
Bisect(kind, rho, lo, hi, n) ==
  IF n = 0 THEN lo
  ELSE LET m == (lo (+) hi) (/) 2 IN
       IF Rho1(kind, m, RNum(1, 1)) \succ rho THEN Bisect(kind, rho, m, hi, n - 1) ELSE Bisect(kind, rho, lo, m, n - 1)
RatioAt(kind, rho) ==
  CASE kind = "Barnes" -> RSqrt(RNum(-2, 1) (.) RLog(rho))
    [] kind = "Powerlaw" -> RSqrt((RNum(2, 1) (.) (RNum(1, 1) (-) rho)) (/) rho)
    [] kind \in {"Soar", "Toar"} -> Bisect(kind, rho, RNum(0, 1), RNum(100, 1), 45)
    [] kind = "Cressman" -> RNum(1, 1)
    [] kind = "Linear" -> RNum(0, 1)

\* ---- scales in force at a location ------------------------------------------------
\* <<h, v, w, localization distance>>: at the nearest locations of the scale grid, or the constant ones
ScalesAt(st, d, p) ==
  LET rho == Field(d, "minrho", DefaultRho)
      Loc(h) == IF Valid(Hmax(d)) /\ d.kind \notin {"Linear", "Cressman"} THEN Hmax(d) ELSE RatioAt(d.kind, rho) (.) h
      At(y, x) == <<d.h[y][x], d.v[y][x], d.w[y][x], Loc(d.h[y][x])>>
  IN IF "grid" \notin DOMAIN d THEN {<<d.h, d.v, d.w, Loc(d.h)>>}
     ELSE IF ~IsSpatial(d) THEN {At(1, 1)}
     ELSE LET g == ArgGrid(st, d.grid)
              nn == NearestSet(DistsTo(Pos(g), XYZ(g.type, p.lat, p.lon)), g.type)
          IN {At(RowOf(g, k) + 1, ColOf(g, k) + 1) : k \in nn}
\* localization distances possible at p
RECURSIVE LocSet(_, _, _)
LocSet(st, s, p) ==
  LET d == StructOf(st, s) IN
  CASE d.kind = "Multiple" -> LocSet(st, d.sh, p)
    [] d.kind = "CrossValidation" -> LocSet(st, d.s, p)
    [] OTHER -> {c[4] : c \in ScalesAt(st, d, p)}

PXYZ(p) == XYZ(TypeOf(p), p.lat, p.lon)
PElev(p) == Field(p, "elev", RNaN)
PLaf(p) == Field(p, "laf", RNaN)
PointAt(o, k) == IF IsGrid(o) THEN LET y == RowOf(o, k) + 1  x == ColOf(o, k) + 1 IN
                     [lat |-> o.lats[y][x], lon |-> o.lons[y][x], elev |-> o.elevs[y][x], laf |-> o.lafs[y][x], type |-> o.type]
                 ELSE [lat |-> o.lats[k], lon |-> o.lons[k], elev |-> o.elevs[k], laf |-> o.lafs[k], type |-> o.type]

\* ---- the correlation of two locations ----------------------------------------------
Zero == <<RNum(0, 1), RNum(0, 1)>>
\* a set of intervals <<lo, hi>>, wide enough for the rounding of the distance
RhoIntervals(kind, hd, tol, p1, p2, c) ==
  LET m == Rho1Diff(kind, PElev(p1), PElev(p2), c[2]) (.) Rho1Diff(kind, PLaf(p1), PLaf(p2), c[3])
      near == RMax2(0, hd (-) tol)
      in == <<Rho1(kind, hd (+) tol, c[1]) (.) m, Rho1(kind, near, c[1]) (.) m>>
      ltol == tol (+) (RLit("2e-6") (.) RMin2(RAbs(c[4]), RLit("1e12")))
  IN IF IsNaN(c[4]) THEN {in}
     ELSE IF near \succ (c[4] (+) ltol) THEN {Zero}
     ELSE IF (hd (+) tol) \preceq (c[4] (-) ltol) \/ REq(hd, 0) THEN {in}
     ELSE {in, Zero}
HDist(p1, p2) == RDist(PXYZ(p1), PXYZ(p2))
HTol(p1, p2) == IF REq(p1.lat, p2.lat) /\ REq(p1.lon, p2.lon) THEN 0 ELSE DTol(TypeOf(p1), HDist(p1, p2))
RECURSIVE CorrSet(_, _, _, _, _)
CorrSet(st, s, p1, p2, bg) ==
  LET d == StructOf(st, s)
      With(e, l, q) == [lat |-> q.lat, lon |-> q.lon, elev |-> e, laf |-> l, type |-> TypeOf(p1)]
  IN CASE d.kind = "Multiple" ->
            {<<a[1] (.) b[1] (.) c[1], a[2] (.) b[2] (.) c[2]>> :
               a \in CorrSet(st, d.sh, p1, With(PElev(p1), PLaf(p1), p2), FALSE),
               b \in CorrSet(st, d.sv, p1, With(PElev(p2), PLaf(p1), p1), FALSE),
               c \in CorrSet(st, d.sw, p1, With(PElev(p1), PLaf(p2), p1), FALSE)}
       [] d.kind = "CrossValidation" ->
            LET inner == CorrSet(st, d.s, p1, p2, bg)  hd == HDist(p1, p2)  tol == HTol(p1, p2) IN
            IF ~bg THEN inner
            ELSE IF (hd (+) tol) \preceq d.dist THEN {Zero}
            ELSE IF (hd (-) tol) \preceq d.dist THEN inner \cup {Zero}
            ELSE inner
       [] OTHER -> UNION {RhoIntervals(d.kind, HDist(p1, p2), HTol(p1, p2), p1, p2, c) : c \in ScalesAt(st, d, p1)}
InInterval(x, i) == ~IsNaN(x) /\ (i[1] (-) (RLit("2e-6") (+) (RLit("1e-5") (.) i[1]))) \preceq x /\ x \preceq (i[2] (+) (RLit("2e-6") (+) (RLit("1e-5") (.) i[2])))
CorrOk(st, s, p1, p2, bg, x) == \E i \in CorrSet(st, s, p1, p2, bg) : InInterval(x, i)
LocOk(st, s, p, x) == \E l \in LocSet(st, s, p) : RNear(x, l, RLit("1e-20"), RLit("3e-6"))

\* scales the same everywhere
RECURSIVE Uniform(_, _)
Uniform(st, s) == LET d == StructOf(st, s) IN
  CASE d.kind = "Multiple" -> Uniform(st, d.sh) /\ Uniform(st, d.sv) /\ Uniform(st, d.sw)
    [] d.kind = "CrossValidation" -> Uniform(st, d.s)
    [] OTHER -> ~IsSpatial(d)

CorrEventOk(st, e) ==
  LET i == e.in  o == e.out IN
  /\ IsOk(e)
  /\ CorrOk(st, i.s, i.a, i.b, FALSE, o.corr) /\ CorrOk(st, i.s, i.a, i.b, TRUE, o.bg)
  /\ CorrOk(st, i.s, i.b, i.a, FALSE, o.rev)
  /\ \A k \in 1..Len(o.list) : IF k = 1 THEN CorrOk(st, i.s, i.a, i.b, FALSE, o.list[k]) ELSE CorrOk(st, i.s, i.a, i.a, FALSE, o.list[k])
  /\ \A k \in 1..Len(o.bglist) : IF k = 1 THEN CorrOk(st, i.s, i.a, i.b, TRUE, o.bglist[k]) ELSE CorrOk(st, i.s, i.a, i.a, TRUE, o.bglist[k])
  /\ LocOk(st, i.s, i.a, o.loc)
  \* what the definition entails, stated by itself
  /\ Within(o.corr, 0, RLit("1.000001")) /\ Within(o.bg, 0, RLit("1.000001"))
  /\ (Uniform(st, i.s) /\ TypeOf(i.a) = TypeOf(i.b)) => RNear(o.corr, o.rev, RLit("1e-6"), RLit("1e-5"))
CorrListOk(st, e) ==
  LET i == e.in  o == e.out IN
  /\ IsOk(e) /\ \A s \in {o.list, o.bglist, o.one, o.onebg} : Len(s) = Len(i.b)
  /\ \A k \in 1..Len(i.b) : /\ CorrOk(st, i.s, i.a, i.b[k], FALSE, o.list[k]) /\ CorrOk(st, i.s, i.a, i.b[k], FALSE, o.one[k])
                            /\ CorrOk(st, i.s, i.a, i.b[k], TRUE, o.bglist[k]) /\ CorrOk(st, i.s, i.a, i.b[k], TRUE, o.onebg[k])
  /\ LocOk(st, i.s, i.a, o.loc)

\* correlations between two sets of locations: for each location the most correlated knots, up to a number
StaticCorrOk(st, e) ==
  LET i == e.in  P == ArgPoints(st, i.points)  K == ArgPoints(st, i.knots) IN
  IF ~ArgOk(st, "p", i.points) \/ ~ArgOk(st, "p", i.knots) \/ ~StructDefOk(st, i.structure) \/ i.max_points < 0 THEN IsErr(e)
  ELSE IF P.type # K.type THEN IsErr(e) \/ Num(P) = 0 \/ Num(K) = 0
  ELSE /\ IsOk(e) /\ Len(e.out) = Num(P)
       /\ \A y \in 1..Num(P) :
            LET p == PointAt(P, y)  row == e.out[y]
                cs == Tab([k \in 1..Num(K) |-> CorrSet(st, i.structure, p, PointAt(K, k), TRUE)])
                used == {k \in 1..Num(K) : row[k] \succ 0}
                Lo(k) == RMinOf([j \in 1..1 |-> (CHOOSE a \in cs[k] : \A b \in cs[k] : a[1] \preceq b[1])[1]])
                Hi(k) == (CHOOSE a \in cs[k] : \A b \in cs[k] : a[2] \succeq b[2])[2]
                radius == LocSet(st, i.structure, p)
                \* on or outside the localization distance a knot may be passed over
                edge(k) == \A l \in radius : (HDist(p, PointAt(K, k)) (+) DTol(P.type, l)) \succeq l
            IN /\ Len(row) = Num(K)
               /\ i.max_points > 0 => Cardinality(used) <= i.max_points
               /\ \A k \in 1..Num(K) :
                    \/ \E c \in cs[k] : InInterval(row[k], c)
                    \/ REq(row[k], 0) /\ (edge(k) \/ (i.max_points > 0 /\ Cardinality(used) = i.max_points
                                            /\ \A u \in used : Hi(u) \succeq (Lo(k) (-) RLit("1e-6"))))

StructOps == {"mk_struct", "struct_clone", "struct_del", "corr", "corr_list"}
PtOk(p) == ValidCoord(TypeOf(p), p.lat, p.lon)
StructAllowed(st, e) ==
  CASE e.op = "mk_struct" -> IF StructDefOk(st, e.in.def) THEN IsOk(e) ELSE IsErr(e)
    [] e.op = "struct_del" -> IsOk(e)
    [] e.op = "struct_clone" -> IF e.in.from \in DOMAIN st.structs THEN IsOk(e) ELSE IsErr(e)
    [] e.op = "corr" -> IF ~StructDefOk(st, e.in.s) THEN IsErr(e)
                        ELSE IF ~PtOk(e.in.a) \/ ~PtOk(e.in.b) THEN IsErr(e) \/ IsOk(e) ELSE CorrEventOk(st, e)
    [] e.op = "corr_list" -> IF ~StructDefOk(st, e.in.s) THEN IsErr(e)
                             ELSE IF ~PtOk(e.in.a) \/ \E k \in 1..Len(e.in.b) : ~PtOk(e.in.b[k]) THEN IsErr(e) \/ IsOk(e) ELSE CorrListOk(st, e)
\* a structure function keeps copies of what it was made of
RECURSIVE Closed(_, _)
Closed(st, s) ==
  LET d == StructOf(st, s) IN
  CASE d.kind = "Multiple" -> [d EXCEPT !.sh = Closed(st, d.sh), !.sv = Closed(st, d.sv), !.sw = Closed(st, d.sw)]
    [] d.kind = "CrossValidation" -> [d EXCEPT !.s = Closed(st, d.s)]
    [] "grid" \in DOMAIN d -> [d EXCEPT !.grid = ArgGrid(st, d.grid)]
    [] OTHER -> d
StructAfter(st, e) ==
  CASE e.op = "mk_struct" -> IF StructDefOk(st, e.in.def) THEN [st EXCEPT !.structs = (e.in.id :> Closed(st, e.in.def)) @@ st.structs] ELSE st
    [] e.op = "struct_clone" /\ e.in.from \notin DOMAIN st.structs -> st
    [] e.op = "struct_clone" -> [st EXCEPT !.structs = (e.in.id :> st.structs[e.in.from]) @@ st.structs]
    [] e.op = "struct_del" -> [st EXCEPT !.structs = [k \in (DOMAIN st.structs) \ {e.in.id} |-> st.structs[k]]]
    [] OTHER -> st
=============================================================================
