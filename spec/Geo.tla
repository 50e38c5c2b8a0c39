-------------------------------- MODULE Geo --------------------------------
(* Locations: grids, point sets and search trees as values; distances; the   *)
(* searches among locations; the cells of a grid.                            *)
EXTENDS Fields, TLC

\* ---- objects ---------------------------------------------------------------
Field(d, k, z) == IF k \in DOMAIN d THEN d[k] ELSE z
TypeOf(d) == Field(d, "type", "geo")
Fill1(n) == [i \in 1..n |-> RNaN]
Fill2(y, x) == [i \in 1..y |-> [j \in 1..x |-> RNaN]]
FullGrid(f, y, x) == Len(f) = y /\ y > 0 /\ Len(f[1]) = x

ValidCoord(type, lat, lon) ==
  /\ Valid(lat) /\ Valid(lon)
  /\ type = "cart" \/ (lat \preceq RLit("90.001") /\ RNeg(lat) \preceq RLit("90.001"))
GridDefOk(d) ==
  \/ Len(d.lats) = 0
  \/ /\ Len(d.lons) = Len(d.lats)
     /\ \A y \in 1..Len(d.lats) : Len(d.lats[y]) = Len(d.lats[1]) /\ Len(d.lons[y]) = Len(d.lats[1])
     /\ \A y \in 1..Len(d.lats) : \A x \in 1..Len(d.lats[1]) : ValidCoord(TypeOf(d), d.lats[y][x], d.lons[y][x])
PointsDefOk(d) ==
  /\ Len(d.lons) = Len(d.lats)
  /\ Len(Field(d, "elevs", <<>>)) \in {0, Len(d.lats)}
  /\ Len(Field(d, "lafs", <<>>)) \in {0, Len(d.lats)}
  /\ \A i \in 1..Len(d.lats) : ValidCoord(TypeOf(d), d.lats[i], d.lons[i])
TreeDefOk(d) == Len(d.lons) = Len(d.lats) /\ \A i \in 1..Len(d.lats) : ValidCoord(TypeOf(d), d.lats[i], d.lons[i])

\* an empty grid need not know its coordinate type
GridObj(d) ==
  LET ny == Len(d.lats)  nx == IF ny = 0 THEN 0 ELSE Len(d.lats[1])
      M(k) == LET f == Field(d, k, <<>>) IN IF FullGrid(f, ny, nx) THEN f ELSE Fill2(ny, nx)
  IN [kind |-> "grid", lats |-> d.lats, lons |-> IF ny = 0 THEN <<>> ELSE d.lons, elevs |-> M("elevs"), lafs |-> M("lafs"), type |-> IF ny = 0 /\ TypeOf(d) # "geo" THEN "none" ELSE TypeOf(d)]
PointsObj(d) ==
  LET n == Len(d.lats)
      M(k) == LET f == Field(d, k, <<>>) IN IF Len(f) = n THEN f ELSE Fill1(n)
  IN [kind |-> "points", lats |-> d.lats, lons |-> d.lons, elevs |-> M("elevs"), lafs |-> M("lafs"), type |-> TypeOf(d)]
TreeObj(d) == [kind |-> "tree", lats |-> d.lats, lons |-> d.lons, type |-> TypeOf(d)]

\* an argument: an object of the session by its name, or one given in place
ArgGrid(st, a) == IF "ref" \in DOMAIN a THEN st.objs[a.ref] ELSE GridObj(a)
ArgPoints(st, a) == IF "ref" \in DOMAIN a THEN st.objs[a.ref] ELSE PointsObj(a)
Arg(st, kind, a) == IF kind = "g" THEN ArgGrid(st, a) ELSE ArgPoints(st, a)
ArgOk(st, kind, a) == "ref" \in DOMAIN a \/ (IF kind = "g" THEN GridDefOk(a) ELSE PointsDefOk(a))

IsGrid(o) == o.kind = "grid"
OY(o) == Len(o.lats)
OX(o) == IF Len(o.lats) = 0 THEN 0 ELSE Len(o.lats[1])
Num(o) == IF IsGrid(o) THEN OY(o) * OX(o) ELSE Len(o.lats)
FlatG(o, f) == IF IsGrid(o) THEN Flat2(f) ELSE f
\* index (from 1) of a location <-> row and column (from 0)
RowOf(o, k) == (k - 1) \div OX(o)
ColOf(o, k) == (k - 1) % OX(o)
IndexOf(o, y, x) == y * OX(o) + x + 1

\* ---- coordinates and distances -----------------------------------------------
Deg == RLit("0.017453292519943295")
RE == RLit("6378137")
XYZ(type, lat, lon) ==
  IF type = "cart" THEN <<lon, lat, 0>>
  ELSE LET a == Deg (.) lat  b == Deg (.) lon  c == RCos(a)
       IN <<RE (.) c (.) RCos(b), RE (.) c (.) RSin(b), RE (.) RSin(a)>>
\* what single-precision coordinates may be off by
DTol(type, d) == IF type = "cart" THEN RLit("8e-7") (.) d ELSE RNum(2, 1) (+) (RLit("5e-7") (.) d)
Pos(o) == LET la == Tab(FlatG(o, o.lats))  lo == Tab(FlatG(o, o.lons))
          IN Tab([k \in 1..Num(o) |-> Tab(XYZ(o.type, la[k], lo[k]))])
DistsTo(pos, q) == Tab([k \in 1..Len(pos) |-> RDist(pos[k], q)])
\* angle between the locations times the radius
ArcOf(chord) == RNum(2, 1) (.) RE (.) RAsin(RMin2(1, chord (/) (RNum(2, 1) (.) RE)))
PathDist(type, chord) == IF type = "cart" THEN chord ELSE ArcOf(chord)
\* close to the opposite point of the earth an angle is known to little precision only
PathNear(type, o, chord) ==
  LET d == PathDist(type, chord)
  IN \/ RNear(o, d, IF type = "cart" THEN 0 ELSE 3, RLit("1e-6"))
     \/ type = "geo" /\ chord \succ (RNum(2, 1) (.) RE (.) RLit("0.99999")) /\ RNear(o, d, 60000, 0)

\* ---- searches -------------------------------------------------------------------
\* which of the locations are those the query is not to count (the query's own location)
MatchSame(o, k, lat, lon) ==
  LET la == FlatG(o, o.lats)  lo == FlatG(o, o.lons) IN REq(la[k], lat) /\ REq(lo[k], lon)
\* ds: distances, type; the set of the nearest, with what rounding may confuse
NearestSet(ds, type) ==
  IF Len(ds) = 0 THEN {}
  ELSE LET m == RMinOf(ds)  lim == m (+) DTol(type, m) (+) DTol(type, m) IN {k \in 1..Len(ds) : ds[k] \preceq lim}
SureIn(ds, type, r) == {k \in 1..Len(ds) : (ds[k] (+) DTol(type, r)) \prec r}
MaybeIn(ds, type, r) == {k \in 1..Len(ds) : ds[k] \preceq (r (+) DTol(type, r)) /\ ~((ds[k] (+) DTol(type, r)) \prec r)}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
\* a query's locations as indices from 1, whatever the object
Indices(o, out) == IF IsGrid(o) THEN [i \in 1..Len(out) |-> IndexOf(o, out[i][1], out[i][2])] ELSE [i \in 1..Len(out) |-> out[i] + 1]

QueryOk(o, e) ==
  LET i == e.in
      match == Field(i, "match", TRUE)
      q == XYZ(o.type, i.lat, i.lon)
      ds == DistsTo(Pos(o), q)
      type == o.type
      n == Num(o)
      same == {k \in 1..n : MatchSame(o, k, i.lat, i.lon)}
      \* so close that single precision may or may not tell them apart
      near == {k \in 1..n : k \notin same /\ ds[k] \preceq DTol(type, 0)}
      cand == IF match THEN 1..n ELSE (1..n) \ same
      sure == IF match THEN 1..n ELSE cand \ near
      Closest(s, num) ==
        LET S == {s[k] : k \in 1..Len(s)} IN
        /\ Distinct(s) /\ S \subseteq cand
        /\ Len(s) <= num /\ (Cardinality(sure) >= num => Len(s) = num) /\ (Len(s) < num => sure \subseteq S)
        /\ \A a \in S, b \in sure \ S : ds[a] \preceq (ds[b] (+) DTol(type, ds[b]) (+) DTol(type, ds[b]))
      InRadius(s, r) ==
        LET S == {s[k] : k \in 1..Len(s)} IN
        /\ Distinct(s) /\ S \subseteq cand
        /\ (SureIn(ds, type, r) \cap sure) \subseteq S
        /\ S \subseteq (SureIn(ds, type, r) \cup MaybeIn(ds, type, r))
  IN IF ~ValidCoord(type, i.lat, i.lon) THEN IsErr(e)
     ELSE CASE i.q = "nearest" ->
            /\ IsOk(e)
            /\ IF IsGrid(o) THEN (Len(e.out) = 0 /\ sure = {}) \/ (Len(e.out) = 2 /\ Closest(Indices(o, <<e.out>>), 1))
               ELSE (e.out = -1 /\ sure = {}) \/ (e.out >= 0 /\ Closest(<<e.out + 1>>, 1))
       [] i.q = "closest" -> IF i.num <= 0 THEN IsErr(e) \/ Len(e.out) = 0 ELSE IsOk(e) /\ Closest(Indices(o, e.out), i.num)
       [] i.q \in {"radius", "count", "radiusd"} /\ Missing(i.radius) -> IsErr(e) \/ IsOk(e)
       [] i.q = "radius" -> IF Missing(i.radius) \/ i.radius \prec 0 THEN IsErr(e) \/ Len(e.out) = 0 ELSE IsOk(e) /\ InRadius(Indices(o, e.out), i.radius)
       [] i.q = "count" -> IF Missing(i.radius) \/ i.radius \prec 0 THEN IsErr(e) \/ e.out = 0
                           ELSE /\ IsOk(e) /\ e.out >= Cardinality(SureIn(ds, type, i.radius) \cap sure)
                                /\ e.out <= Cardinality((SureIn(ds, type, i.radius) \cup MaybeIn(ds, type, i.radius)) \cap cand)
       [] i.q = "radiusd" -> IF Missing(i.radius) \/ i.radius \prec 0 THEN IsErr(e) \/ Len(e.out.i) = 0
                             ELSE /\ IsOk(e) /\ InRadius(Indices(o, e.out.i), i.radius)
                                  /\ Len(e.out.d) = Len(e.out.i)
                                  /\ LET s == Indices(o, e.out.i) IN \A k \in 1..Len(s) : RNear(e.out.d[k], ds[s[k]], DTol(type, ds[s[k]]), 0)

\* ---- cells of a grid ----------------------------------------------------------------
\* corners (row y to y+1, column x to x+1, from 0) in the order around the cell: <<lat, lon>>
Corner(o, y, x) == <<o.lats[y + 1][x + 1], o.lons[y + 1][x + 1]>>
Quad(o, y, x) == Tab(<<Corner(o, y, x), Corner(o, y + 1, x), Corner(o, y + 1, x + 1), Corner(o, y, x + 1)>>)
Cross(p, q, m) == ((q[1] (-) p[1]) (.) (m[2] (-) p[2])) (-) ((q[2] (-) p[2]) (.) (m[1] (-) p[1]))
EdgeLen(p, q) == RDist(<<p[1], p[2]>>, <<q[1], q[2]>>)
Nxt(i) == (i % 4) + 1
\* "in" the cell, "out" of it, or so close to its edge that rounding decides
Side(q, m) ==
  LET sz == RMaxOf([i \in 1..4 |-> RAbs(q[i][1]) (+) RAbs(q[i][2])]) (+) RAbs(m[1]) (+) RAbs(m[2])
      tol == RLit("6e-7") (.) sz
      len == Tab([i \in 1..4 |-> EdgeLen(q[i], q[Nxt(i)])])
      dist == Tab([i \in 1..4 |-> Cross(q[i], q[Nxt(i)], m) (/) len[i]])
  IN IF \E i \in 1..4 : REq(len[i], 0) THEN "edge"
     ELSE IF (\A i \in 1..4 : dist[i] \succ tol) \/ (\A i \in 1..4 : dist[i] \prec RNeg(tol)) THEN "in"
     ELSE IF (\E i \in 1..4 : dist[i] \succ tol) /\ (\E i \in 1..4 : dist[i] \prec RNeg(tol)) THEN "out"
     ELSE "edge"
\* the cells (by their first corner) that touch the node of index k
CellsAt(o, k) == {c \in {<<RowOf(o, k) + a, ColOf(o, k) + b>> : a \in {-1, 0}, b \in {-1, 0}} :
                    c[1] >= 0 /\ c[2] >= 0 /\ c[1] + 1 < OY(o) /\ c[2] + 1 < OX(o)}
\* a cell is found only next to a nearest node
NearCells(o, nn) == UNION {CellsAt(o, k) : k \in nn}
\* sides of all the cells there
SidesOf(o, nn, m) == [c \in NearCells(o, nn) |-> Side(Quad(o, c[1], c[2]), m)]
MayFind(o, nn, m) == {c \in NearCells(o, nn) : Side(Quad(o, c[1], c[2]), m) # "out"}
MayMiss(o, nn, m) == \E k \in nn : \A c \in CellsAt(o, k) : Side(Quad(o, c[1], c[2]), m) # "in"
GetBoxOk(o, e) ==
  LET m == <<e.in.lat, e.in.lon>>
      nn == NearestSet(DistsTo(Pos(o), XYZ(o.type, e.in.lat, e.in.lon)), o.type)
      b == e.out.box
  IN IF ~ValidCoord(o.type, e.in.lat, e.in.lon) THEN IsErr(e)
     ELSE /\ IsOk(e)
          /\ IF e.out.found THEN /\ b[3] = b[1] + 1 /\ b[4] = b[2] + 1
                                 /\ <<b[1], b[2]>> \in MayFind(o, nn, m)
             ELSE OX(o) < 2 \/ OY(o) < 2 \/ MayMiss(o, nn, m)
MayBeInside(o, lat, lon) ==
  LET nn == NearestSet(DistsTo(Pos(o), XYZ(o.type, lat, lon)), o.type) IN
  OX(o) >= 2 /\ OY(o) >= 2 /\ MayFind(o, nn, <<lat, lon>>) # {}
MayBeOutside(o, lat, lon) ==
  LET nn == NearestSet(DistsTo(Pos(o), XYZ(o.type, lat, lon)), o.type) IN
  OX(o) < 2 \/ OY(o) < 2 \/ MayMiss(o, nn, <<lat, lon>>)

\* ---- what an object reports ------------------------------------------------------------
SameF(o, a, b) == IF IsGrid(o) THEN Len(a) = Len(b) /\ \A y \in 1..Len(a) : SameSeq(a[y], b[y]) ELSE SameSeq(a, b)
DescribeOk(o, r) ==
  /\ r.kind = o.kind
  /\ r.size = IF IsGrid(o) THEN (IF Num(o) = 0 THEN <<0, 0>> ELSE <<OY(o), OX(o)>>) ELSE Len(o.lats)
  /\ SameF(o, r.lats, o.lats) /\ SameF(o, r.lons, o.lons)
  /\ o.kind # "tree" => SameF(o, r.elevs, o.elevs) /\ SameF(o, r.lafs, o.lafs)
  /\ r.type = o.type \/ Num(o) = 0
PointOk(r, lat, lon, elev, laf, type) ==
  /\ Same(r.lat, lat) /\ Same(r.lon, lon) /\ Same(r.elev, elev) /\ Same(r.laf, laf) /\ r.type = type
  /\ LET p == XYZ(type, lat, lon) IN \A k \in 1..3 : RNear(r.xyz[k], p[k], IF type = "cart" THEN 0 ELSE RLit("1.5"), Eps)
GetPointOk(o, e) ==
  IF IsGrid(o)
  THEN IF e.in.y < 0 \/ e.in.x < 0 \/ e.in.y >= OY(o) \/ e.in.x >= OX(o) THEN IsErr(e)
       ELSE LET y == e.in.y + 1  x == e.in.x + 1 IN
            IsOk(e) /\ PointOk(e.out, o.lats[y][x], o.lons[y][x], o.elevs[y][x], o.lafs[y][x], o.type)
  ELSE IF e.in.y < 0 \/ e.in.y >= Num(o) THEN IsErr(e)
       ELSE LET k == e.in.y + 1 IN IsOk(e) /\ PointOk(e.out, o.lats[k], o.lons[k], o.elevs[k], o.lafs[k], o.type)
ToPoints(o) == [kind |-> "points", lats |-> FlatG(o, o.lats), lons |-> FlatG(o, o.lons), elevs |-> FlatG(o, o.elevs), lafs |-> FlatG(o, o.lafs), type |-> o.type]
\* indices from 0
SubsetOf(o, ix) == LET T(f) == Tab([k \in 1..Len(ix) |-> f[ix[k] + 1]]) IN
  [kind |-> "points", lats |-> T(o.lats), lons |-> T(o.lons), elevs |-> T(o.elevs), lafs |-> T(o.lafs), type |-> o.type]
SubsetDefined(o, ix) == \A k \in 1..Len(ix) : ix[k] >= 0 /\ ix[k] < Num(o)
InDomainOk(o, g, e) ==
  \* coordinates of one system have no place in the other
  IF o.type # g.type /\ IsErr(e) THEN TRUE
  ELSE LET ix == e.out.indices IN
  /\ IsOk(e)
  /\ \A k \in 1..(Len(ix) - 1) : ix[k] < ix[k + 1]
  /\ SubsetDefined(o, ix)
  /\ \A k \in 1..Num(o) : IF \E j \in 1..Len(ix) : ix[j] = k - 1 THEN MayBeInside(g, o.lats[k], o.lons[k]) ELSE MayBeOutside(g, o.lats[k], o.lons[k])
  /\ DescribeOk(SubsetOf(o, ix), e.out.points)

\* ---- sessions with objects ----------------------------------------------------------------
\* an operation may leave a session without the object it was to make
Absent(st, e) == \E f \in (DOMAIN e.in) \cap {"id", "from", "tree", "grid"} :
                    /\ f = "id" => e.op \in {"get", "get_point", "query", "get_box"}
                    /\ e.in[f] \notin DOMAIN st.objs
ObjAllowed(st, e) ==
  LET i == e.in IN
  CASE Absent(st, e) -> IsErr(e)
    [] e.op = "mk_grid" -> IF GridDefOk(i.def) THEN IsOk(e) /\ DescribeOk(GridObj(i.def), e.out) ELSE IsErr(e)
    [] e.op = "mk_points" -> IF PointsDefOk(i.def) THEN IsOk(e) /\ DescribeOk(PointsObj(i.def), e.out) ELSE IsErr(e)
    [] e.op = "mk_tree" -> IF TreeDefOk(i.def) THEN IsOk(e) /\ DescribeOk(TreeObj(i.def), e.out) ELSE IsErr(e)
    [] e.op = "mk_points_from_tree" ->
         LET t == st.objs[i.tree]  n == Num(t) IN
         IF Len(i.elevs) \in {0, n} /\ Len(i.lafs) \in {0, n}
         THEN IsOk(e) /\ DescribeOk(PointsObj([lats |-> t.lats, lons |-> t.lons, elevs |-> i.elevs, lafs |-> i.lafs, type |-> t.type]), e.out)
         ELSE IsErr(e)
    [] e.op \in {"copy", "assign"} -> IsOk(e) /\ DescribeOk(st.objs[i.from], e.out)
    [] e.op = "del" -> IsOk(e)
    [] e.op = "get" -> IsOk(e) /\ DescribeOk(st.objs[i.id], e.out)
    [] e.op = "to_points" -> IsOk(e) /\ DescribeOk(ToPoints(st.objs[i.from]), e.out)
    [] e.op = "subset" -> LET o == st.objs[i.from] IN
         IF SubsetDefined(o, i.indices) THEN IsOk(e) /\ DescribeOk(SubsetOf(o, i.indices), e.out) ELSE IsErr(e)
    [] e.op = "in_domain" -> InDomainOk(st.objs[i.from], st.objs[i.grid], e)
    [] e.op = "get_point" -> GetPointOk(st.objs[i.id], e)
    [] e.op = "query" -> QueryOk(st.objs[i.id], e)
    [] e.op = "get_box" -> GetBoxOk(st.objs[i.id], e)
    [] OTHER -> FALSE
\* the objects after an event
ObjAfter(st, e) ==
  LET i == e.in
      Put(o) == [st EXCEPT !.objs = (i.id :> o) @@ st.objs]
  IN CASE Absent(st, e) -> st
       [] e.op = "mk_grid" -> IF GridDefOk(i.def) THEN Put(GridObj(i.def)) ELSE st
       [] e.op = "mk_points" -> IF PointsDefOk(i.def) THEN Put(PointsObj(i.def)) ELSE st
       [] e.op = "mk_tree" -> IF TreeDefOk(i.def) THEN Put(TreeObj(i.def)) ELSE st
       [] e.op = "mk_points_from_tree" ->
            LET t == st.objs[i.tree]  n == Num(t) IN
            IF Len(i.elevs) \in {0, n} /\ Len(i.lafs) \in {0, n}
            THEN Put(PointsObj([lats |-> t.lats, lons |-> t.lons, elevs |-> i.elevs, lafs |-> i.lafs, type |-> t.type])) ELSE st
       [] e.op \in {"copy", "assign"} -> Put(st.objs[i.from])
       [] e.op = "del" -> [st EXCEPT !.objs = [k \in (DOMAIN st.objs) \ {i.id} |-> st.objs[k]]]
       [] e.op = "to_points" -> Put(ToPoints(st.objs[i.from]))
       [] e.op = "subset" -> IF SubsetDefined(st.objs[i.from], i.indices) THEN Put(SubsetOf(st.objs[i.from], i.indices)) ELSE st
       [] e.op = "in_domain" -> IF IsOk(e) /\ SubsetDefined(st.objs[i.from], e.out.indices) THEN Put(SubsetOf(st.objs[i.from], e.out.indices)) ELSE st
       [] OTHER -> st
ObjOps == {"mk_grid", "mk_points", "mk_tree", "mk_points_from_tree", "copy", "assign", "del", "get", "to_points", "subset", "in_domain", "get_point", "query", "get_box"}

\* ---- stand-alone distance functions ----------------------------------------------------------
\* coordinates of which single precision still tells the location
BothCoords(i) == /\ ValidCoord(i.type, i.lat1, i.lon1) /\ ValidCoord(i.type, i.lat2, i.lon2)
                 /\ i.type = "cart" \/ (RAbs(i.lon1) \preceq 720 /\ RAbs(i.lon2) \preceq 720)
CalcDistanceOk(e) ==
  LET i == e.in  p == XYZ(i.type, i.lat1, i.lon1)  q == XYZ(i.type, i.lat2, i.lon2)
  IN IF BothCoords(i) THEN IsOk(e) /\ PathNear(i.type, e.out, RDist(p, q)) ELSE IsErr(e) \/ IsOk(e)
\* the approximation follows the flat-earth formula with the latitude of larger magnitude
CalcDistanceFastOk(e) ==
  LET i == e.in IN
  IF ~BothCoords(i) THEN IsErr(e) \/ IsOk(e)
  ELSE IsOk(e) /\ IF i.type = "cart" THEN PathNear("cart", e.out, RDist(XYZ("cart", i.lat1, i.lon1), XYZ("cart", i.lat2, i.lon2)))
  ELSE LET dl0 == RAbs(i.lon1 (-) i.lon2)
           dl == IF dl0 \succ 360 THEN dl0 (-) 360 ELSE dl0
           dlon == IF dl \succ 180 THEN RNum(360, 1) (-) dl ELSE dl
           mx == IF RAbs(i.lat2) \succ RAbs(i.lat1) THEN i.lat2 ELSE i.lat1
           c == RCos(Deg (.) mx)
           dy == i.lat1 (-) i.lat2
       IN RNear(e.out, RE (.) Deg (.) RSqrt((c (.) c (.) dlon (.) dlon) (+) (dy (.) dy)), 4, RLit("2e-6"))
ConvertOk(e) ==
  LET i == e.in
      P(k) == XYZ(i.type, i.lats[k], i.lons[k])
  IN IF Len(i.lats) # Len(i.lons) THEN IsErr(e)
     ELSE IF \E k \in 1..Len(i.lats) : ~ValidCoord(i.type, i.lats[k], i.lons[k]) THEN IsErr(e)
     ELSE /\ IsOk(e) /\ e.out.ok /\ Len(e.out.x) = Len(i.lats) /\ Len(e.out.y) = Len(i.lats) /\ Len(e.out.z) = Len(i.lats)
          /\ \A k \in 1..Len(i.lats) : LET p == P(k)  t == IF i.type = "cart" THEN 0 ELSE RLit("1.5") IN
               RNear(e.out.x[k], p[1], t, 0) /\ RNear(e.out.y[k], p[2], t, 0) /\ RNear(e.out.z[k], p[3], t, 0)
=============================================================================
