------------------------------- MODULE Assim -------------------------------
(* Observations and a background: optimal interpolation, its ensemble forms, *)
(* and the local distribution correction.  Correlations are intervals (see   *)
(* Structure); a result is compared with the exact solution for the middle   *)
(* of them, within what their widths can make of it.                         *)
EXTENDS Curves

Mid(i) == (i[1] (+) i[2]) (/) 2
Half(i) == ((i[2] (-) i[1]) (/) 2) (+) RLit("3e-7") (+) (RLit("2e-6") (.) i[2])
IsOut(i) == i[2] \preceq RLit("1e-46")

Ascending(S, n) == SelectSeq([k \in 1..n |-> k], LAMBDA k : k \in S)

\* ---- which observations a location uses ----------------------------------------------
\* what the correlation with an observation may be; <<0, 0>>: not used
RhoAlts(st, s, P, p, q, l, k) ==
  LET d == RDist(PXYZ(p), q[k])
      tol == (IF REq(d, 0) THEN 0 ELSE DTol(P.type, d)) (+) (IF Valid(l) THEN RLit("3e-6") (.) l ELSE RNum(0, 1))
      base == {IF IsOut(i) THEN Zero ELSE i : i \in CorrSet(st, s, p, PointAt(P, k), TRUE)}
      both == base \cup {Zero : i \in {i \in base : ~(i[1] \succ RLit("4e-7"))}}
  IN IF IsNaN(l) \/ l \prec 0 THEN {Zero}
     ELSE IF ~Valid(l) THEN both
     ELSE IF (d (-) tol) \succ l THEN {Zero}
     ELSE IF (d (+) tol) \prec l THEN both
     ELSE both \cup {Zero}
RECURSIVE Combos(_)
Combos(a) == IF Len(a) = 0 THEN {<<>>} ELSE {Append(c, x) : c \in Combos(SubSeq(a, 1, Len(a) - 1)), x \in a[Len(a)]}
RECURSIVE Ways(_)
Ways(a) == IF Len(a) = 0 THEN 1 ELSE LET w == Ways(SubSeq(a, 1, Len(a) - 1)) IN IF w > 64 THEN w ELSE w * Cardinality(a[Len(a)])
\* the sets of m of the observations U that are the most correlated
Best(U, rho, m) ==
  LET slack == RLit("3e-6")
      sure == {k \in U : Cardinality({j \in U : j # k /\ (rho[j][2] (+) slack) \succeq (rho[k][1] (-) slack)}) < m}
      never == {k \in U : Cardinality({j \in U : (rho[j][1] (-) slack) \succ (rho[k][2] (+) slack)}) >= m}
      rest == U \ (sure \cup never)
      T(x) == sure \cup x
  IN IF Cardinality(rest) > 12 THEN {}
     ELSE {T(x) : x \in {x \in SUBSET rest : Cardinality(x) = m - Cardinality(sure)
                            /\ \A i \in x, j \in rest \ x : (rho[i][2] (+) slack) \succeq (rho[j][1] (-) slack)}}
\* the ways an observation set can be selected for location p: sequences of observations with their
\* correlations; unknown where there are too many
Unknown == [unknown |-> TRUE]
Selections(st, s, P, pos, p, usable, m) ==
  UNION {LET alts == Tab([k \in 1..Num(P) |-> IF usable[k] THEN RhoAlts(st, s, P, p, pos, l, k) ELSE {Zero}])
         IN IF Ways(alts) > 16 THEN {Unknown}
            ELSE UNION {LET U == {k \in 1..Num(P) : ~IsOut(c[k])}
                            TT == IF m = 0 \/ Cardinality(U) <= m THEN {U} ELSE Best(U, c, m)
                        IN IF TT = {} THEN {Unknown} ELSE {[unknown |-> FALSE, ix |-> Ascending(T, Num(P)), rho |-> c] : T \in TT} : c \in Combos(alts)}
         : l \in LocSet(st, s, p)}

\* ---- gains -----------------------------------------------------------------------------
MatVec(A, v) == [i \in 1..Len(A) |-> RDot(A[i], v)]
VecMat(v, A) == [j \in 1..Len(A) |-> RSum([i \in 1..Len(A) |-> v[i] (.) A[i][j]])]
MaxRow(A) == RMaxOf([i \in 1..Len(A) |-> SumAbs(A[i])])
IsInverse(A, X) ==
  LET n == Len(A) IN \A i, j \in 1..n : RNear(RSum([k \in 1..n |-> A[i][k] (.) X[k][j]]), IF i = j THEN 1 ELSE 0, RLit("1e-9") (.) (1 (+) (MaxRow(A) (.) MaxRow(X))), 0)
\* corr[i][j]: intervals of the correlations among the observations, g and r: middle and error of those with the
\* location, D: what is added to the diagonal
Solve(g, ge, A, Ae) ==
  LET X == Tab(RInv(A))
      finite == \A i, j \in 1..Len(A) : Valid(X[i][j])
  IN IF ~finite \/ ~((MaxRow(X) (.) MaxRow(Ae)) \prec RNum(1, 20)) \/ ~IsInverse(A, X) THEN [known |-> FALSE]
     ELSE [known |-> TRUE, X |-> X, g |-> g, ge |-> ge, Ae |-> Ae, z |-> Tab([j \in 1..Len(A) |-> RAbs(VecMat(g, X)[j])]), k |-> Tab(VecMat(g, X))]
\* value and error of g inv(A) d, d off by de at most
Apply(s, d) == RDot(s.k, d)
ApplyErr(s, d, de) ==
  LET w == [i \in 1..Len(d) |-> RAbs(MatVec(s.X, d)[i])] IN
  RNum(2, 1) (.) (RDot(s.ge, w) (+) RSum([i \in 1..Len(d) |-> s.z[i] (.) RDot(s.Ae[i], w)]) (+) RDot(s.z, de))
\* increments no larger than the largest innovation, nor smaller than the smallest; cross: what is used where an
\* increment has the other sign than all innovations
Limited(x, lo, hi, d, s, crossUp, crossDown) ==
  LET mx == RMaxOf(d)  mn == RMinOf(d) IN
  \/ /\ (lo (-) s) \preceq x /\ x \preceq (hi (+) s)
     /\ x \preceq (RMax2(mx, 0) (+) s) /\ (RMin2(mn, 0) (-) s) \preceq x
  \/ RNear(x, IF mx \prec 0 THEN crossUp ELSE mx, s, 0) /\ (hi (+) s) \succeq RMax2(mx, 0)
  \/ RNear(x, IF mn \succ 0 THEN crossDown ELSE mn, s, 0) /\ (lo (-) s) \preceq RMin2(mn, 0)

\* ---- optimal interpolation ----------------------------------------------------------------
\* correlations among the observations
ObsCorr(st, s, P) == Tab([i \in 1..Num(P) |-> Tab([j \in 1..Num(P) |->
  LET c == CorrSet(st, s, PointAt(P, i), PointAt(P, j), FALSE)
      lo == RMinOf(Tab([k \in 1..1 |-> (CHOOSE a \in c : \A b \in c : a[1] \preceq b[1])[1]]))
      hi == (CHOOSE a \in c : \A b \in c : a[2] \succeq b[2])[2]
  IN <<lo, hi>>])])
\* gain for a selection: scale each correlation with the location (f) and among observations (F), D on the diagonal
GainOf(sel, corr, D, f, F) ==
  LET n == Len(sel.ix)  K(i) == sel.ix[i] IN
  Solve(Tab([i \in 1..n |-> Mid(sel.rho[K(i)]) (.) f[K(i)][1]]),
        Tab([i \in 1..n |-> (Half(sel.rho[K(i)]) (.) RAbs(f[K(i)][1])) (+) (sel.rho[K(i)][2] (.) f[K(i)][2])]),
        Tab([i \in 1..n |-> Tab([j \in 1..n |-> (Mid(corr[K(i)][K(j)]) (.) F[K(i)][K(j)][1]) (+) (IF i = j THEN D[K(i)] ELSE 0)])]),
        Tab([i \in 1..n |-> Tab([j \in 1..n |-> (Half(corr[K(i)][K(j)]) (.) RAbs(F[K(i)][K(j)][1])) (+) (corr[K(i)][K(j)][2] (.) F[K(i)][K(j)][2]) (+) (IF i = j THEN Eps (.) RAbs(D[K(i)]) ELSE 0)])]))
Ones1(n) == Tab([i \in 1..n |-> <<1, 0>>])
Ones2(n) == Tab([i \in 1..n |-> Ones1(n)])
OiOk(st, e, kind, full) ==
  LET i == e.in  B == Arg(st, kind, i.bgrid)  P == ArgPoints(st, i.points)  n == Num(P) IN
  IF ~ArgOk(st, kind, i.bgrid) \/ ~ArgOk(st, "p", i.points) \/ ~StructDefOk(st, i.structure) \/ i.max_points < 0 THEN IsErr(e)
  ELSE IF ~FitsObj(B, i.x) \/ Len(i.obs) # n \/ Len(i.pbg) # n \/ (full /\ (~FitsObj(B, i.bvar) \/ Len(i.ovar) # n \/ Len(i.pbvar) # n)) \/ (~full /\ Len(i.ratios) # n) THEN IsErr(e)
  ELSE IF ~SameType(B, P) THEN MixedErr(e, B, P)
  ELSE
    LET pos == Pos(P)
        D == Tab([k \in 1..n |-> IF full THEN RF32(i.ovar[k] (/) i.pbvar[k]) ELSE i.ratios[k]])
        usable == Tab([k \in 1..n |-> Valid(i.obs[k]) /\ Valid(i.pbg[k])])
        odd == \E k \in 1..n : usable[k] /\ (Missing(D[k]) \/ D[k] \prec 0)
        corr == ObsCorr(st, i.structure, P)
        an == IF full THEN e.out.an ELSE e.out
        Sel(y) == Selections(st, i.structure, P, pos, PointAt(B, y), usable, i.max_points)
        One(y, sel) ==
          LET b == ValAt(B, i.x, y)  o == ValAt(B, an, y)
              bv == IF full THEN ValAt(B, i.bvar, y) ELSE 1
              av == IF full THEN ValAt(B, e.out.av, y) ELSE 1
              m == Len(sel.ix)
              G == GainOf(sel, corr, D, Ones1(n), Ones2(n))
              d == Tab([k \in 1..m |-> i.obs[sel.ix[k]] (-) i.pbg[sel.ix[k]]])
              de == Tab([k \in 1..m |-> RLit("1e-14") (.) (RAbs(i.obs[sel.ix[k]]) (+) RAbs(i.pbg[sel.ix[k]]))])
              inc == Apply(G, d)  err == ApplyErr(G, d, de)
              slack == (Eps (.) (RAbs(b) (+) RAbs(inc) (+) err)) (+) Tiny
              v == 1 (-) Apply(G, G.g)
              verr == ApplyErr(G, G.g, G.ge) (+) RLit("1e-7")
          IN IF sel.unknown THEN TRUE
             ELSE IF m = 0 \/ Missing(b) THEN Same(o, b) /\ (full => Same(av, bv))
             ELSE IF \E k \in 1..m : Missing(D[sel.ix[k]]) \/ D[sel.ix[k]] \prec 0 THEN TRUE
             ELSE IF ~G.known THEN TRUE
             ELSE /\ ~IsNaN(o)
                  /\ IF i.extrap THEN RNear(o, b (+) inc, err (+) slack, 0)
                     ELSE Limited(o (-) b, inc (-) err, inc (+) err, d, slack (+) (Eps (.) MaxAbs(d)), RMaxOf(d), RMinOf(d))
                  /\ full => IF Missing(bv) THEN Missing(av) ELSE RNear(av, bv (.) v, RAbs(bv) (.) (verr (+) Eps), Eps)
    IN IF IsErr(e) THEN \E y \in 1..Num(B) : Valid(ValAt(B, i.x, y)) /\ \E sel \in Sel(y) : sel.unknown \/ (Len(sel.ix) > 0 /\ (odd \/ ~GainOf(sel, corr, D, Ones1(n), Ones2(n)).known))
       ELSE /\ IsOk(e) /\ FitsObj(B, an) /\ (full => FitsObj(B, e.out.av))
            /\ \A y \in 1..Num(B) : \E sel \in Sel(y) : One(y, sel)

\* ---- ensembles ------------------------------------------------------------------------------
\* an ensemble at every location of o, the same number of members everywhere
FitsEns(o, x, ne) == FitsObj(o, x) /\ \A k \in 1..Num(o) : Len(ValAt(o, x, k)) = ne
Members(o, x) == IF Num(o) = 0 THEN 0 ELSE Len(ValAt(o, x, 1))
FitsRows(x, n, ne) == Len(x) = n /\ \A k \in 1..n : Len(x[k]) = ne
AllIn(o, x, ix) == \A y \in 1..Num(o) : Valid(ValAt(o, x, y)[ix])
RowsIn(x, ix) == \A k \in 1..Len(x) : Valid(x[k][ix])
Pick(row, ens) == Tab([k \in 1..Len(ens) |-> row[ens[k]]])
Anomalies(row) == LET m == Mean(row) IN Tab([k \in 1..Len(row) |-> row[k] (-) m])
MeanErr(row) == Eps (.) 2 (.) MaxAbs(row)
EnsSame(o, x, out) == FitsEns(o, out, Members(o, x)) /\ \A y \in 1..Num(o) : SameSeq(ValAt(o, x, y), ValAt(o, out, y))
\* the transform of an ensemble of n members with anomalies Y[s] at the observations, precisions rinv[s] and
\* prior precision c: W = sqrt((n-1) P) and w = P Y' rinv d, P = inv(c + Y' rinv Y); with the errors of both
Transform(Y, Ye, rinv, re, d, de, n, c) ==
  LET m == Len(Y)
      Norm(s) == RSqrt(RDot(Y[s], Y[s]))
      Pinv == Tab([a \in 1..n |-> Tab([b \in 1..n |-> RSum([s \in 1..m |-> Y[s][a] (.) rinv[s] (.) Y[s][b]]) (+) (IF a = b THEN c ELSE 0)])])
      P == Tab(RInv(Pinv))
      S == Tab(RSqrtm(Tab([a \in 1..n |-> Tab([b \in 1..n |-> ((P[a][b] (+) P[b][a]) (/) 2) (.) (n - 1)])])))
      Cd == Tab([a \in 1..n |-> RSum([s \in 1..m |-> Y[s][a] (.) rinv[s] (.) d[s]])])
      norms == Tab([s \in 1..m |-> Norm(s)])
      bErr == RSum([s \in 1..m |-> ((re[s] (.) norms[s] (.) norms[s]) (+) (rinv[s] (.) 2 (.) n (.) norms[s] (.) Ye[s]))]) (/) c
      cErr == RSum([s \in 1..m |-> (re[s] (.) norms[s] (.) RAbs(d[s])) (+) (rinv[s] (.) n (.) Ye[s] (.) RAbs(d[s])) (+) (rinv[s] (.) norms[s] (.) de[s])])
      cSize == RSum([s \in 1..m |-> norms[s] (.) rinv[s] (.) RAbs(d[s])])
  IN [S |-> S, w |-> Tab(MatVec(P, Cd)),
      Se |-> RSqrt((n - 1) (/) c) (.) (bErr (+) RLit("1e-10")),
      we |-> RNum(2, 1) (.) ((((bErr (.) cSize) (+) cErr) (/) c) (+) RLit("1e-12") (.) cSize),
      known |-> bErr \prec RNum(1, 20) /\ IsInverse(Pinv, P) /\ (MaxRow(Pinv) (/) c) \prec RLit("1e6")
                /\ \A a, b \in 1..n : RNear(RSum([k \in 1..n |-> S[a][k] (.) S[k][b]]), P[a][b] (.) (n - 1), RLit("1e-9") (.) ((n - 1) (/) c), 0)]
\* o is the member's analysis: the mean m plus inc (off by err), limited by the member's innovations d
MemberOk(o, b, m, inc, err, d, extrap, size) ==
  LET slack == Eps (.) 4 (.) (size (+) RAbs(m) (+) RAbs(inc) (+) err)
      x == o (-) b   \* the member's own increment
      c == (m (+) inc) (-) b
  IN IF extrap THEN RNear(o, m (+) inc, err (+) slack, 0)
     ELSE ~IsNaN(o) /\ Limited(x, c (-) err, c (+) err, d, slack (+) (Eps (.) 4 (.) MaxAbs(d)), RNum(0, 1), RNum(0, 1))

EnsiOk(st, e, kind) ==
  LET i == e.in  B == Arg(st, kind, i.bgrid)  P == ArgPoints(st, i.points)  n == Num(P) IN
  IF ~ArgOk(st, kind, i.bgrid) \/ ~ArgOk(st, "p", i.points) \/ ~StructDefOk(st, i.structure) \/ i.max_points < 0 THEN IsErr(e)
  ELSE IF n = 0 \/ EmptyObj(B) THEN IsErr(e) \/ (IsOk(e) /\ Len(e.out) = Len(i.x))
  ELSE LET ne == IF Len(i.x) > 0 /\ FitsObj(B, i.x) THEN Members(B, i.x) ELSE 0 IN
  IF ~FitsEns(B, i.x, ne) \/ Len(i.obs) # n \/ Len(i.sigmas) # n \/ ~FitsRows(i.pbg, n, ne) THEN IsErr(e)
  ELSE IF ~SameType(B, P) THEN IsErr(e)
  ELSE
    LET pos == Pos(P)
        ens == Ascending({k \in 1..ne : AllIn(B, i.x, k)}, ne)
        nv == Len(ens)
        Y == Tab([k \in 1..n |-> Pick(i.pbg[k], ens)])
        usable == Tab([k \in 1..n |-> Valid(i.obs[k]) /\ nv > 0 /\ \A j \in 1..nv : Valid(Y[k][j])])
        Sel(y) == Selections(st, i.structure, P, pos, PointAt(B, y), usable, i.max_points)
        One(y, sel) ==
          LET row == ValAt(B, i.x, y)  out == ValAt(B, e.out, y)
              v == Pick(row, ens)  m == Len(sel.ix)  K(s) == sel.ix[s]
              rinv == Tab([s \in 1..m |-> Mid(sel.rho[K(s)]) (/) (i.sigmas[K(s)] (.) i.sigmas[K(s)])])
              re == Tab([s \in 1..m |-> (Half(sel.rho[K(s)]) (+) (Eps (.) sel.rho[K(s)][2])) (/) (i.sigmas[K(s)] (.) i.sigmas[K(s)])])
              T == Transform(Tab([s \in 1..m |-> Anomalies(Y[K(s)])]), Tab([s \in 1..m |-> MeanErr(Y[K(s)])]), rinv, re,
                             Tab([s \in 1..m |-> i.obs[K(s)] (-) Mean(Y[K(s)])]), Tab([s \in 1..m |-> MeanErr(Y[K(s)])]), nv, nv - 1)
              X == Anomalies(v)
              Inc(k) == RSum([j \in 1..nv |-> X[j] (.) (T.S[j][k] (+) T.w[j])])
              err == (SumAbs(X) (.) (T.Se (+) T.we)) (+) (MeanErr(v) (.) (2 (+) SumAbs(T.w))) (+) (Eps (.) (nv + 3) (.) RSum([j \in 1..nv |-> RAbs(X[j]) (.) (1 (+) RAbs(T.w[j]))]))
          IN IF sel.unknown THEN TRUE
             ELSE IF m = 0 \/ nv <= 1 THEN SameSeq(out, row)
             ELSE IF \E s \in 1..m : Missing(i.sigmas[K(s)]) \/ RAbs(i.sigmas[K(s)]) \prec RLit("1e-6") THEN TRUE
             ELSE IF ~T.known THEN TRUE
             ELSE \A k \in 1..nv : MemberOk(out[ens[k]], v[k], Mean(v), Inc(k), err, Tab([s \in 1..m |-> i.obs[K(s)] (-) Y[K(s)][k]]), i.extrap,
                                            MaxAbs(v) (+) RMaxOf([s \in 1..m |-> MaxAbs(Y[K(s)])]))
    IN /\ IsOk(e) /\ FitsEns(B, e.out, ne)
       /\ \A y \in 1..Num(B) :
            /\ \A k \in 1..ne : (\A j \in 1..nv : ens[j] # k) => Same(ValAt(B, e.out, y)[k], ValAt(B, i.x, y)[k])
            /\ \E sel \in Sel(y) : One(y, sel)

\* ---- ensembles that give the correlations to another one ----------------------------------------
MinStd == RLit("0.0013")
\* standardised anomalies <<value, error>> over sqrt(n - 1); zero where the ensemble does not spread; undefined close to that
Spread(row) == RSqrt(Variance(row))
Standard(row) ==
  LET sd == Spread(row)  n == Len(row) IN
  IF n <= 1 \/ sd \preceq MinStd THEN Tab([k \in 1..n |-> RNum(0, 1)])
  ELSE LET a == Anomalies(row) IN Tab([k \in 1..n |-> a[k] (/) (sd (.) RSqrt(n - 1))])
SpreadUnclear(row) == Len(row) > 1 /\ RNear(Spread(row), MinStd, (Eps (.) 20 (.) MaxAbs(row)), RLit("0.02")) 
StandardErr(row) ==
  LET sd == Spread(row) IN IF Len(row) <= 1 \/ sd \preceq MinStd THEN RNum(0, 1)
  ELSE (RLit("1e-6") (.) (Len(row) + 2)) (+) ((Eps (.) 8 (.) MaxAbs(row)) (/) sd)

MultiOk(st, e, kind, form) ==
  LET i == e.in  B == Arg(st, kind, i.bgrid)  P == ArgPoints(st, i.points)  n == Num(P)
      corrEns == form \in {"ebe", "utem"} IN
  IF ~ArgOk(st, kind, i.bgrid) \/ ~ArgOk(st, "p", i.points) \/ ~StructDefOk(st, i.structure) \/ i.max_points < 0 THEN IsErr(e)
  ELSE IF n = 0 \/ EmptyObj(B) THEN IsErr(e) \/ (IsOk(e) /\ Len(e.out) = Len(i.x))
  ELSE LET ne == IF Len(i.x) > 0 /\ FitsObj(B, i.x) THEN Members(B, i.x) ELSE 0 IN
  IF ~FitsEns(B, i.x, ne) \/ ~FitsObj(B, i.bratios) \/ Len(i.pratios) # n \/ ~FitsRows(i.pbg, n, ne)
     \/ (corrEns /\ (~FitsEns(B, i.xc, ne) \/ ~FitsRows(i.pbgc, n, ne)))
     \/ (IF form = "utem" THEN Len(i.obs) # n ELSE ~FitsRows(i.obs, n, ne)) THEN IsErr(e)
  ELSE IF ~SameType(B, P) THEN IsErr(e)
  ELSE
    LET pos == Pos(P)
        ens == Ascending({k \in 1..ne : AllIn(B, i.x, k) /\ RowsIn(i.pbg, k) /\ (corrEns => AllIn(B, i.xc, k) /\ RowsIn(i.pbgc, k))}, ne)
        nv == Len(ens)
        usable == Tab([k \in 1..n |-> nv > 0 /\ IF form = "utem" THEN Valid(i.obs[k]) ELSE \A j \in 1..nv : Valid(i.obs[k][ens[j]])])
        Sel(y) == Selections(st, i.structure, P, pos, PointAt(B, y), usable, i.max_points)
        corr == IF form = "utem" THEN <<>> ELSE ObsCorr(st, i.structure, P)
        Yc == IF corrEns THEN Tab([k \in 1..n |-> Pick(i.pbgc[k], ens)]) ELSE <<>>
        Z == IF corrEns THEN Tab([k \in 1..n |-> Standard(Yc[k])]) ELSE <<>>
        Ze == IF corrEns THEN Tab([k \in 1..n |-> StandardErr(Yc[k])]) ELSE <<>>
        F == IF form = "ebe" THEN Tab([a \in 1..n |-> Tab([b \in 1..n |-> <<RDot(Z[a], Z[b]), (SumAbs(Z[a]) (.) Ze[b]) (+) (SumAbs(Z[b]) (.) Ze[a]) (+) RLit("1e-12")>>])]) ELSE Ones2(n)
        unclear == corrEns /\ nv > 1 /\ ((\E k \in 1..n : SpreadUnclear(Yc[k])) \/ \E y \in 1..Num(B) : SpreadUnclear(Pick(ValAt(B, i.xc, y), ens)))
        odd == \E k \in 1..n : Missing(i.pratios[k]) \/ i.pratios[k] \preceq 0
        \* the gain of the member-by-member forms
        GainAt(y, sel) ==
          LET xc == Pick(ValAt(B, i.xc, y), ens)  zx == Standard(xc)  ze == StandardErr(xc)
              f == IF form = "ebe" THEN Tab([k \in 1..n |-> <<RDot(zx, Z[k]), (SumAbs(zx) (.) Ze[k]) (+) (SumAbs(Z[k]) (.) ze) (+) RLit("1e-12")>>]) ELSE Ones1(n)
          IN GainOf(sel, corr, i.pratios, f, F)
        MemberForm(y, sel) ==
          LET row == ValAt(B, i.x, y)  out == ValAt(B, e.out, y)  m == Len(sel.ix)  K(s) == sel.ix[s]
              G == GainAt(y, sel)  r == ValAt(B, i.bratios, y)
          IN IF ~G.known \/ Missing(r) THEN TRUE
             ELSE \A k \in 1..nv :
                LET d == Tab([s \in 1..m |-> i.obs[K(s)][ens[k]] (-) i.pbg[K(s)][ens[k]]])
                    inc == r (.) Apply(G, d)
                    err == RAbs(r) (.) ApplyErr(G, d, Tab([s \in 1..m |-> Eps (.) (RAbs(d[s]))]))
                    b == row[ens[k]]  o == out[ens[k]]
                    slack == (Eps (.) 2 (.) (RAbs(b) (+) RAbs(inc) (+) err)) (+) Tiny
                IN ~IsNaN(o) /\ IF i.extrap THEN RNear(o, b (+) inc, err (+) slack, 0)
                   ELSE Limited(o (-) b, inc (-) err, inc (+) err, d, slack (+) (Eps (.) 2 (.) MaxAbs(d)), RNum(0, 1), RNum(0, 1))
        MeanForm(y, sel) ==
          LET row == ValAt(B, i.x, y)  out == ValAt(B, e.out, y)  m == Len(sel.ix)  K(s) == sel.ix[s]
              v == Pick(row, ens)  r == ValAt(B, i.bratios, y)
              xc == Pick(ValAt(B, i.xc, y), ens)  zx == Standard(xc)
              rinv == Tab([s \in 1..m |-> Mid(sel.rho[K(s)]) (/) i.pratios[K(s)]])
              re == Tab([s \in 1..m |-> (Half(sel.rho[K(s)]) (+) (Eps (.) sel.rho[K(s)][2])) (/) i.pratios[K(s)]])
              Y == Tab([s \in 1..m |-> Pick(i.pbg[K(s)], ens)])
              T == Transform(Tab([s \in 1..m |-> Z[K(s)]]), Tab([s \in 1..m |-> Ze[K(s)]]), rinv, re,
                             Tab([s \in 1..m |-> i.obs[K(s)] (-) Mean(Y[s])]), Tab([s \in 1..m |-> MeanErr(Y[s])]), nv, 1)
              sd == Spread(v)
              Wt(j, k) == (sd (.) T.S[j][k]) (+) (r (.) T.w[j])
              Inc(k) == RSum([j \in 1..nv |-> zx[j] (.) Wt(j, k)])
              size == (sd (.) RSqrt(nv)) (+) (RAbs(r) (.) MaxAbs(T.w))
              sdErr == (RLit("1e-6") (.) (nv + 2) (.) sd) (+) (Eps (.) 8 (.) MaxAbs(v))
              err == (SumAbs(zx) (.) ((sd (.) T.Se) (+) (sdErr (.) RSqrt(nv)) (+) (RAbs(r) (.) T.we))) (+) (StandardErr(xc) (.) nv (.) size) (+) (Eps (.) (nv + 3) (.) SumAbs(zx) (.) size)
          IN IF ~T.known \/ Missing(r) THEN TRUE
             ELSE \A k \in 1..nv : MemberOk(out[ens[k]], v[k], Mean(v), Inc(k), err, Tab([s \in 1..m |-> i.obs[K(s)] (-) Y[s][k]]), i.extrap,
                                            MaxAbs(v) (+) RMaxOf([s \in 1..m |-> MaxAbs(Y[s])]))
        One(y, sel) ==
          IF sel.unknown THEN TRUE
          ELSE IF Len(sel.ix) = 0 \/ nv = 0 THEN SameSeq(ValAt(B, e.out, y), ValAt(B, i.x, y))
          ELSE IF odd \/ unclear THEN TRUE
          ELSE IF form = "utem" THEN MeanForm(y, sel) ELSE MemberForm(y, sel)
    IN IF IsErr(e) THEN form # "utem" /\ \E y \in 1..Num(B) : \E sel \in Sel(y) : sel.unknown \/ (Len(sel.ix) > 0 /\ nv > 0 /\ (odd \/ unclear \/ ~GainAt(y, sel).known))
       ELSE /\ IsOk(e) /\ FitsEns(B, e.out, ne)
            /\ \A y \in 1..Num(B) :
                 /\ \A k \in 1..ne : (\A j \in 1..nv : ens[j] # k) => Same(ValAt(B, e.out, y)[k], ValAt(B, i.x, y)[k])
                 /\ \E sel \in Sel(y) : One(y, sel)

\* ---- local distribution correction ------------------------------------------------------------------
\* pairs <<value, weight>> in the order of value and weight
RECURSIVE Insert(_, _)
Insert(s, x) == IF Len(s) = 0 THEN <<x>>
  ELSE LET l == s[Len(s)] IN IF l[1] \prec x[1] \/ (REq(l[1], x[1]) /\ l[2] \preceq x[2]) THEN Append(s, x) ELSE Append(Insert(SubSeq(s, 1, Len(s) - 1), x), l)
RECURSIVE SortPairs(_, _)
SortPairs(s, n) == IF n = 0 THEN <<>> ELSE Insert(SortPairs(s, n - 1), s[n])
RECURSIVE Flatten(_)
Flatten(s) == IF Len(s) = 0 THEN <<>> ELSE Flatten(SubSeq(s, 1, Len(s) - 1)) \o s[Len(s)]
Cum(pairs) == Tab([k \in 1..(Len(pairs) + 1) |-> RSum([j \in 1..(k - 1) |-> pairs[j][2]])])
Truncated(pairs, d0, d1) == SubSeq(pairs, d0 + 1, d1)
LdcCell(b, o, pairs, rhoErr, minq, maxq, min) ==
  LET n == Len(pairs)
      d0 == RFloor(RF32(n (.) minq))  d1 == RFloor(RF32(n (.) maxq))
      sumRho == RSum(Tab([k \in 1..n |-> pairs[k][3]]))
      rp == Tab(Truncated(SortPairs(Tab([k \in 1..n |-> <<pairs[k][1], pairs[k][3]>>]), n), d0, d1))
      fp == Tab(Truncated(SortPairs(Tab([k \in 1..n |-> <<pairs[k][2], pairs[k][3]>>]), n), d0, d1))
      Quant(p) == LET c == Cum(p)  t == c[Len(c)] IN Tab([k \in 1..Len(c) |-> IF k = 1 THEN RNum(0, 1) ELSE minq (+) ((c[k] (/) t) (.) (maxq (-) minq))])
      ref == Tab([k \in 1..(Len(rp) + 1) |-> IF k = 1 THEN RNum(0, 1) ELSE rp[k - 1][1]])
      fcst == Tab([k \in 1..(Len(fp) + 1) |-> IF k = 1 THEN RNum(0, 1) ELSE fp[k - 1][1]])
      rl == ref[Len(ref)]  fl == fcst[Len(fcst)]
      q == Interp(b, fcst, Quant(fp))
      Total1(p) == RSum(Tab([k \in 1..Len(p) |-> p[k][2]]))
      delta == RLit("2e-6") (.) (n + 3) (+) (((2 * n) (.) rhoErr) (/) RMin2(Total1(rp), Total1(fp)))
      lo == Interp(q (-) delta, Quant(rp), ref)  hi == Interp(q (+) delta, Quant(rp), ref)
      w0 == 1 (-) RExp(RLit("-0.01") (.) sumRho)
      tol == (Eps (.) 4 (.) (RAbs(b) (+) rl (+) fl)) (+) (RLit("0.011") (.) n (.) rhoErr (.) (rl (+) b))
      Blend(x) == (w0 (.) x) (+) ((1 (-) w0) (.) b)
  IN IF n < min \/ d1 <= d0 THEN Same(o, b)
     ELSE IF b \prec RLit("0.0099999") THEN REq(o, 0)
     ELSE IF b \prec RLit("0.0100001") /\ REq(o, 0) THEN TRUE
     ELSE IF rl \preceq 0 THEN
        IF RNear(b, 3 (.) fl, 0, Eps) THEN REq(o, 0) \/ Same(o, b)
        ELSE IF b \prec (3 (.) fl) \/ b \prec RLit("0.0999999") THEN REq(o, 0)
        ELSE IF b \prec RLit("0.1000001") THEN REq(o, 0) \/ Same(o, b)
        ELSE Same(o, b)
     ELSE IF b \succeq fl THEN RNear(o, (b (+) rl) (-) fl, tol, 0)
     ELSE IF delta \succ RNum(1, 10) THEN TRUE
     ELSE ~IsNaN(o) /\ (Blend(lo) (-) tol) \preceq o /\ o \preceq (Blend(hi) (+) tol)
LdcOk(st, e) ==
  LET i == e.in  B == ArgGrid(st, i.bgrid)  P == ArgPoints(st, i.points)  n == Num(P)
      rows == Len(i.obs) > 0 /\ i.nt = 1
      obs == IF i.nt = 1 THEN i.obs ELSE <<i.obs>>  pbg == IF i.nt = 1 THEN i.pbg ELSE <<i.pbg>> IN
  IF ~ArgOk(st, "g", i.bgrid) \/ ~ArgOk(st, "p", i.points) \/ ~StructDefOk(st, i.structure) THEN IsErr(e)
  ELSE IF ~FitsObj(B, i.x) \/ ~(0 \preceq i.minq /\ i.minq \preceq i.maxq /\ i.maxq \preceq 1) \/ Len(obs) # Len(pbg)
          \/ \E t \in 1..Len(obs) : Len(obs[t]) # Len(pbg[t]) \/ Len(obs[t]) < n THEN IsErr(e)
  ELSE IF ~SameType(B, P) THEN MixedErr(e, B, P)
  ELSE
    LET pos == Pos(P)
        PairOk(t, k) == Valid(obs[t][k]) /\ Valid(pbg[t][k]) /\ obs[t][k] \succeq 0 /\ pbg[t][k] \succeq 0
        usable == Tab([k \in 1..n |-> \E t \in 1..Len(obs) : PairOk(t, k)])
        One(y, sel) ==
          LET b == ValAt(B, i.x, y)  o == ValAt(B, e.out, y)
              pairs == Tab(Flatten(Tab([a \in 1..Len(sel.ix) |-> LET k == sel.ix[a] IN
                         Tab([t \in 1..Cardinality({t \in 1..Len(obs) : PairOk(t, k)}) |->
                            LET tt == Ascending({u \in 1..Len(obs) : PairOk(u, k)}, Len(obs))[t] IN <<obs[tt][k], pbg[tt][k], Mid(sel.rho[k])>>])])))
              rhoErr == IF Len(sel.ix) = 0 THEN RNum(0, 1) ELSE RMaxOf(Tab([a \in 1..Len(sel.ix) |-> Half(sel.rho[sel.ix[a]])]))
          IN IF sel.unknown THEN TRUE ELSE LdcCell(b, o, pairs, rhoErr, i.minq, i.maxq, i.min_points)
    IN /\ IsOk(e) /\ FitsObj(B, e.out)
       /\ \A y \in 1..Num(B) : IF Missing(ValAt(B, i.x, y)) THEN Same(ValAt(B, e.out, y), ValAt(B, i.x, y))
            ELSE \E sel \in Selections(st, i.structure, P, pos, PointAt(B, y), usable, 0) : One(y, sel)

AssimOps == {"oi_g", "oi_p", "oif_g", "oif_p", "ensi_g", "ensi_p", "ebe_g", "ebe_p", "ebesc_g", "ebesc_p", "utem_g", "utem_p", "ldc"}
AssimOk(st, e) ==
  CASE e.op = "oi_g" -> OiOk(st, e, "g", FALSE) [] e.op = "oi_p" -> OiOk(st, e, "p", FALSE)
    [] e.op = "oif_g" -> OiOk(st, e, "g", TRUE) [] e.op = "oif_p" -> OiOk(st, e, "p", TRUE)
    [] e.op = "ensi_g" -> EnsiOk(st, e, "g") [] e.op = "ensi_p" -> EnsiOk(st, e, "p")
    [] e.op = "ebe_g" -> MultiOk(st, e, "g", "ebe") [] e.op = "ebe_p" -> MultiOk(st, e, "p", "ebe")
    [] e.op = "ebesc_g" -> MultiOk(st, e, "g", "ebesc") [] e.op = "ebesc_p" -> MultiOk(st, e, "p", "ebesc")
    [] e.op = "utem_g" -> MultiOk(st, e, "g", "utem") [] e.op = "utem_p" -> MultiOk(st, e, "p", "utem")
    [] e.op = "ldc" -> LdcOk(st, e)
=============================================================================
