---------------------------- MODULE ClientNetcdf ----------------------------
(* Files on disk: opening one (which dimensions and variables carry the      *)
(* grid, the times and the members), writing fields into it, and what lies   *)
(* on disk afterwards.  Beside NetCDF the two text formats.                  *)
EXTENDS ClientBulletin

\* ---- what a test file is made of -----------------------------------------------------
NcImage(in) ==
  LET v(n) == in.vars[CHOOSE i \in 1..Len(in.vars) : in.vars[i].n = n]
      size(d) == in.dims[CHOOSE i \in 1..Len(in.dims) : in.dims[i].n = d]
      \* a dimension without limit is as long as what lies along it
      used(d) == \E i \in 1..Len(in.vars) : \E j \in 1..Len(in.vars[i].dims) : in.vars[i].dims[j] = d
      unlim(d) == Opt(size(d), "unlim", FALSE) = TRUE
  IN [k |-> "nc",
      dims |-> [d \in {in.dims[i].n : i \in 1..Len(in.dims)} |-> [size |-> IF unlim(d) /\ ~used(d) THEN 0 ELSE size(d).size, unlim |-> unlim(d)]],
      vars |-> [n \in {in.vars[i].n : i \in 1..Len(in.vars)} |->
                  [dims |-> v(n).dims, type |-> Opt(v(n), "type", "f"), atts |-> Opt(v(n), "atts", <<>>), data |-> Opt(v(n), "data", <<>>), loose |-> FALSE]],
      hist |-> IF "atts" \in DOMAIN in /\ "history" \in DOMAIN in.atts THEN << [known |-> TRUE, s |-> in.atts.history] >> ELSE <<>>]

\* ---- opening ------------------------------------------------------------------------------
NoGood == [o |-> "err"]
NcOpen(img, o, path) ==
  LET names == DOMAIN img.vars
      typed == "type" \in DOMAIN o
      latv == IF "latVar" \in DOMAIN o THEN o.latVar ELSE FirstNamed(<<"latitude", "lat">>, names)
      lonv == IF "lonVar" \in DOMAIN o THEN o.lonVar ELSE FirstNamed(<<"longitude", "lon">>, names)
      tv == IF "timeVar" \in DOMAIN o THEN o.timeVar ELSE FirstNamed(<<"time">>, names)
      dn == DOMAIN img.dims
      y == IF "yDim" \in DOMAIN o THEN o.yDim ELSE FirstNamed(<<"y", "latitude", "lat">>, dn)
      x == IF "xDim" \in DOMAIN o THEN o.xDim ELSE FirstNamed(<<"x", "longitude", "lon">>, dn)
      t == IF "timeDim" \in DOMAIN o THEN o.timeDim ELSE FirstNamed(<<"time">>, dn)
      en == Opt(o, "ensDim", "ensemble_member")
      e == IF en \in dn THEN en ELSE ""
      unknown == \/ "latVar" \in DOMAIN o /\ latv \notin names
                 \/ "lonVar" \in DOMAIN o /\ lonv \notin names
                 \/ "timeVar" \in DOMAIN o /\ tv \notin names
                 \/ "yDim" \in DOMAIN o /\ y \notin dn
                 \/ "xDim" \in DOMAIN o /\ x \notin dn
                 \/ "timeDim" \in DOMAIN o /\ t \notin dn
  IN
  IF (latv = "" \/ lonv = "") /\ ~typed THEN NoGood
  ELSE IF latv = "" \/ lonv = "" \/ unknown THEN NoGood
  ELSE
    LET h == [t |-> t, e |-> e, y |-> y, x |-> x, en |-> en, tv |-> tv, lat |-> latv, lon |-> lonv]
        V(n) == img.vars[n]
        ny == IF y = "" THEN 1 ELSE img.dims[y].size
        nx == IF x = "" THEN 1 ELSE img.dims[x].size
        elevv == IF "elevVar" \in DOMAIN o THEN (IF o.elevVar \in names THEN o.elevVar ELSE "") ELSE FirstNamed(<<"altitude", "surface_geopotential">>, names)
        geop == "elevVar" \notin DOMAIN o /\ elevv = "surface_geopotential"
        lafv == Opt(o, "lafVar", "land_area_fraction")
        refv == "forecast_reference_time"
    IN
    IF ~GridFits(h, V(latv)) \/ ~GridFits(h, V(lonv)) \/ (elevv # "" /\ ~GridFits(h, V(elevv))) \/ (lafv \in names /\ ~GridFits(h, V(lafv))) THEN NoGood
    ELSE
      LET lats == GridOfVar(img, h, V(latv), ny, nx)
          lons == GridOfVar(img, h, V(lonv), ny, nx)
          raw == IF elevv = "" THEN GridMV(ny, nx) ELSE GridOfVar(img, h, V(elevv), ny, nx)
          elevs == IF geop THEN Tab([i \in 1..ny |-> [j \in 1..nx |-> IF CValid(raw[i][j]) THEN RDiv(raw[i][j], RLit("9.81")) ELSE MV]]) ELSE raw
          ref0 == IF refv \in names THEN V(refv).data[1] ELSE MV
          times == IF tv # "" THEN (IF t # "" THEN SubSeq(V(tv).data, 1, img.dims[t].size) ELSE <<V(tv).data[1]>>) ELSE <<ref0>>
          ref == IF CMissing(ref0) /\ tv # "" /\ Len(times) > 0 THEN times[1] ELSE ref0
      IN
      IF BadLat(lats) \/ BadLon(lons) \/ (refv \in names /\ V(refv).dims # <<>>) \/ (tv = "" /\ CMissing(ref0)) THEN NoGood
      ELSE [o |-> "ok", s |->
        [fake |-> FALSE, ny |-> ny, nx |-> nx, ne |-> IF e = "" THEN 1 ELSE img.dims[e].size, times |-> times, ref |-> ref,
         lats |-> lats, lons |-> NormLons(lons), elevs |-> elevs, lafs |-> IF lafv \in names THEN GridOfVar(img, h, V(lafv), ny, nx) ELSE GridMV(ny, nx),
         haselevs |-> elevv # "", under |-> <<>>, names |-> names, fs |-> <<>>, al |-> <<>>, tag |-> <<>>, old |-> {},
         from |-> [k |-> "nc", img |-> img, h |-> h, path |-> path, first |-> img.vars]]]

\* rows of time, latitude, longitude, altitude and one value per member
RECURSIVE TupleLess(_, _, _), InOrder(_)
TupleLess(a, b, i) == i <= Len(a) /\ (RLt(a[i], b[i]) \/ (REq(a[i], b[i]) /\ TupleLess(a, b, i + 1)))
InOrder(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a = b \/ TupleLess(a, b, 1) IN <<m>> \o InOrder(S \ {m})
TextOpen(rows, path) ==
  LET n == Len(rows)
      ne == IF n = 0 THEN 0 ELSE Len(rows[1]) - 4
      ts == InOrder({<<rows[i][1]>> : i \in 1..n})
      times == Tab([i \in 1..Len(ts) |-> ts[i][1]])
      places == InOrder({SubSeq(rows[i], 2, 4) : i \in 1..n})
      np == Len(places)
      Row(t, p) == {i \in 1..n : REq(rows[i][1], t) /\ REq(rows[i][2], p[1]) /\ REq(rows[i][3], p[2]) /\ REq(rows[i][4], p[3])}
      col(k) == Tab([i \in 1..np |-> <<places[i][k]>>])
  IN
  IF n = 0 \/ \E i \in 1..n : Len(rows[i]) # ne + 4 THEN NoGood
  ELSE IF ne < 1 \/ BadLat(col(1)) \/ BadLon(col(2)) THEN NoGood
  ELSE [o |-> "ok", s |->
    [fake |-> FALSE, ny |-> np, nx |-> 1, ne |-> ne, times |-> times, ref |-> MV, lats |-> col(1), lons |-> NormLons(col(2)), elevs |-> col(3), lafs |-> GridMV(np, 1),
     haselevs |-> TRUE, under |-> <<>>, names |-> {}, fs |-> <<>>, al |-> <<>>, tag |-> <<>>, old |-> {},
     from |-> [k |-> "text", path |-> path,
               fields |-> Tab([t \in 1..Len(times) |-> [i \in 1..np |-> LET r == Row(times[t], places[i]) IN IF r = {} THEN [e \in 1..ne |-> MV] ELSE SubSeq(rows[MaxIn(r)], 5, 4 + ne)]])]]]
\* rows of time and one value per member, for one place
PointOpen(rows, o, path) ==
  LET n == Len(rows)
      ne == IF "ens" \in DOMAIN o THEN o.ens ELSE IF n = 0 THEN MV ELSE Len(rows[n]) - 1
      times == IF "time" \in DOMAIN o THEN Tab([i \in 1..o.time |-> i - 1]) ELSE Tab([i \in 1..n |-> rows[i][1]])
  IN
  IF ~({"lat", "lon", "elev"} \subseteq DOMAIN o) THEN NoGood
  ELSE IF BadLat(<<<<o.lat>>>>) \/ BadLon(<<<<o.lon>>>>) \/ (n = 0 /\ ~({"time", "ens"} \subseteq DOMAIN o)) THEN NoGood
  ELSE [o |-> "ok", s |->
    [fake |-> FALSE, ny |-> 1, nx |-> 1, ne |-> ne, times |-> times, ref |-> MV, lats |-> <<<<o.lat>>>>, lons |-> NormLons(<<<<o.lon>>>>), elevs |-> <<<<o.elev>>>>, lafs |-> GridMV(1, 1),
     haselevs |-> TRUE, under |-> <<>>, names |-> {}, fs |-> <<>>, al |-> <<>>, tag |-> <<>>, old |-> {}, from |-> [k |-> "point", path |-> path, rows |-> rows]]]

OpenOf(disk, in) ==
  LET ty == Opt(in.opt, "type", "")
      there == in.path \in DOMAIN disk
      k == IF there THEN disk[in.path].k ELSE ""
  IN
  IF ty = "" THEN (IF k = "nc" THEN NcOpen(disk[in.path], in.opt, in.path) ELSE NoGood)
  ELSE IF ty = "netcdf" THEN (IF k = "nc" THEN NcOpen(disk[in.path], in.opt, in.path) ELSE NoGood)
  ELSE IF ty = "norcomQnh" THEN BulletinOpen(in.opt, in.path)
  ELSE IF ty = "text" THEN (IF k = "rows" THEN TextOpen(disk[in.path].rows, in.path) ELSE NoGood)
  ELSE IF ty = "point" THEN (IF k = "nc" THEN NoGood ELSE PointOpen(IF there THEN disk[in.path].rows ELSE <<>>, in.opt, in.path))
  ELSE NoGood

\* ---- writing --------------------------------------------------------------------------------
\* all values of a variable again, from Op at each position
Laid(img, v, Op(_)) == LET sz == SizesOf(img, v)  n == Prod(sz, 1) IN Tab([i \in 1..n |-> Op(CoordOf(sz, i))])
\* a dimension without limit grows; what was not written before is marked so
GrownTo(img, d, n) ==
  IF d = "" THEN img
  ELSE IF ~img.dims[d].unlim \/ img.dims[d].size >= n THEN img
  ELSE LET new == [img EXCEPT !.dims[d].size = n]
           Old(v) == SizesOf(img, v)
           Value(v, c) == LET sz == Old(v) IN IF \E i \in 1..Len(c) : c[i] >= sz[i] THEN UnwrittenOf(v) ELSE v.data[FlatIx(sz, c)]
       IN [new EXCEPT !.vars = [m \in DOMAIN img.vars |-> LET v == img.vars[m] IN IF HasDimOf(v, d) THEN [v EXCEPT !.data = Laid(new, v, LAMBDA c : Value(v, c))] ELSE v]]
AddVar(img, n, dims, type) ==
  LET v == [dims |-> dims, type |-> type, atts |-> <<>>, data |-> <<>>, loose |-> FALSE] IN
  [img EXCEPT !.vars = With(@, n, [v EXCEPT !.data = Laid(img, v, LAMBDA c : CFill)])]
AddDim(img, d, n, unlim) == [img EXCEPT !.dims = With(@, d, [size |-> n, unlim |-> unlim])]
SetAtt(img, n, k, s) == IF s = "" THEN img ELSE [img EXCEPT !.vars[n].atts = With(@, k, s)]
Given(d) == SelectSeq(d, LAMBDA x : x # "")
Epoch == "seconds since 1970-01-01 00:00:00 +00:00"
\* variables are named, or given with a unit, a standard name and a level
VName(v) == v.name
VLev(v) == Opt(v, "level", 0)
\* the fields of a variable at all times
RECURSIVE ReadAllFrom(_, _, _, _)
ReadAllFrom(s, n, lev, t) == IF t >= NT(s) THEN s ELSE ReadAllFrom(ReadL(s, n, t, FALSE, lev), n, lev, t + 1)

\* definitions, times, reference time and altitudes
NcStart(s, msg) ==
  LET h == s.from.h  nt == NT(s)  img == s.from.img
      a == IF h.tv # "" THEN img ELSE IF h.t # "" THEN AddVar(img, "time", <<h.t>>, "d") ELSE AddVar(AddDim(img, "time", 0, TRUE), "time", <<"time">>, "d")
      h1 == [h EXCEPT !.tv = IF h.tv = "" THEN "time" ELSE h.tv, !.t = IF h.tv = "" /\ h.t = "" THEN "time" ELSE h.t]
      b == SetAtt(SetAtt(SetAtt(a, h1.tv, "long_name", "time"), h1.tv, "standard_name", "time"), h1.tv, "units", Epoch)
      c == IF h.e = "" /\ s.ne > 1 THEN AddDim(b, h.en, s.ne, FALSE) ELSE b
      h2 == [h1 EXCEPT !.e = IF h.e = "" /\ s.ne > 1 THEN h.en ELSE h.e]
      rv == "forecast_reference_time"
      d == IF rv \in DOMAIN c.vars THEN c ELSE AddVar(c, rv, <<>>, "d")
      e == SetAtt(SetAtt([d EXCEPT !.vars[rv].data = <<IF CMissing(s.ref) THEN CFill ELSE s.ref>>], rv, "standard_name", "forecast_reference_time"), rv, "units", Epoch)
      f == GrownTo(e, h2.t, nt)
      g == [f EXCEPT !.vars[h2.tv].data = [i \in 1..Len(@) |-> IF i <= nt THEN (IF CMissing(s.times[i]) THEN CFill ELSE s.times[i]) ELSE @[i]]]
      anyElev == \E y \in 1..s.ny : \E x \in 1..s.nx : CValid(s.elevs[y][x])
      \* new altitudes lie like two-dimensional latitudes do
      like == IF Len(img.vars[h.lat].dims) >= 2 THEN h.lat ELSE IF "surface_geopotential" \in DOMAIN img.vars THEN "surface_geopotential" ELSE ""
      yfirst == like = "" \/ DimIx(img.vars[like], h.y) < DimIx(img.vars[like], h.x)
      altdims == Given(IF yfirst THEN <<h.y, h.x>> ELSE <<h.x, h.y>>)
      k == IF ~anyElev \/ "altitude" \in DOMAIN g.vars THEN g ELSE AddVar(g, "altitude", altdims, "f")
      Alt(v, p) == LET y == IF HasDimOf(v, h.y) THEN p[DimIx(v, h.y)] + 1 ELSE 1
                       x == IF HasDimOf(v, h.x) THEN p[DimIx(v, h.x)] + 1 ELSE 1
                   IN IF CValid(s.elevs[y][x]) THEN s.elevs[y][x] ELSE NcFill(v)
      l == IF ~anyElev THEN k ELSE [k EXCEPT !.vars["altitude"].data = Laid(k, k.vars["altitude"], LAMBDA p : Alt(k.vars["altitude"], p))]
      \* too many times for the file, or altitudes laid out otherwise: refused
      bad == \/ h1.t = "" /\ nt > 1
             \/ h1.t # "" /\ ~a.dims[h1.t].unlim /\ a.dims[h1.t].size < nt
             \/ anyElev /\ Len(k.vars["altitude"].dims) # Len(Given(<<h.y, h.x>>))
  IN [s |-> [s EXCEPT !.from.h = h2, !.from.img = [l EXCEPT !.hist = <<[known |-> FALSE, s |-> ": gridpp " \o msg]>> \o @]], bad |-> bad,
      \* missing times have no place among whole numbers
      may |-> (Whole(d.vars[rv]) /\ CMissing(s.ref)) \/ (Whole(b.vars[h1.tv]) /\ \E i \in 1..nt : CMissing(s.times[i]))]
\* one variable
NcOneVar(w, var) ==
  LET n == VName(var)  lev == VLev(var)
      h == w.s.from.h  i0 == w.s.from.img
      i1 == IF n \in DOMAIN i0.vars THEN i0 ELSE AddVar(i0, n, Given(<<h.t, h.e, h.y, h.x>>), "f")
      i2 == SetAtt(SetAtt(SetAtt(i1, n, "coordinates", h.lon \o " " \o h.lat), n, "units", Opt(var, "units", "")), n, "standard_name", Opt(var, "std", ""))
      s0 == [w.s EXCEPT !.from.img = i2]
      v == i2.vars[n]
      needs == \E t \in 1..NT(s0) : ~Slots(s0, n)[t].has
      bad == NT(s0) > 0 /\ LevelBad(i2, h, v, lev)
      s == IF bad THEN s0 ELSE ReadAllFrom(s0, n, lev, 0)
      nt == NT(s)
      loose == ~HasDimOf(v, h.t) /\ nt > 1
      At(p, d, none) == IF HasDimOf(v, d) THEN p[DimIx(v, d)] ELSE none
      Level(p) == \A i \in OtherDims(h, v) : p[i] = (IF i2.dims[v.dims[i]].size > 1 THEN lev ELSE 0)
      Value(p) == LET t == At(p, h.t, 0)  e == At(p, h.e, 0)  y == At(p, h.y, 0)  x == At(p, h.x, 0) IN
                  IF e >= s.ne THEN MV ELSE s.fs[n][t + 1].f[y + 1][x + 1][e + 1]
      Kept(p) == At(p, h.t, 0) >= nt \/ ~Level(p)
      sz == SizesOf(i2, v)
      New == Laid(i2, v, LAMBDA p : IF Kept(p) THEN v.data[FlatIx(sz, p)] ELSE Packed(v, Value(p)))
      \* what does not fit into a whole number
      may == Whole(v) /\ (loose \/ \E i \in 1..Len(New) : RLt(New[i], Lowest(v)) \/ RLt(Highest(v), New[i]))
  IN IF bad THEN [w EXCEPT !.bad = TRUE]
     ELSE [s |-> [s EXCEPT !.from.img.vars[n].data = IF nt = 0 THEN @ ELSE New, !.from.img.vars[n].loose = loose], bad |-> w.bad, may |-> w.may \/ may]
RECURSIVE NcAllVars(_, _)
NcAllVars(w, vs) == IF Len(vs) = 0 \/ w.bad THEN w ELSE NcAllVars(NcOneVar(w, vs[1]), Tail(vs))
NcWrite(s, vs, msg) == LET w == NcStart(s, msg) IN NcAllVars(w, vs)

\* one line per time (and place) in the text formats; only the first variable has room
TextRows(s, vs) ==
  IF Len(vs) = 0 THEN [s |-> s, rows |-> <<>>]
  ELSE LET r == ReadAllFrom(s, VName(vs[1]), 0, 0)
           f(t, y) == r.fs[VName(vs[1])][t].f[y][1]
           V(t, y) == Tab([e \in 1..s.ne |-> IF CValid(f(t, y)[e]) THEN f(t, y)[e] ELSE MV])
           Line(i) == LET t == ((i - 1) \div s.ny) + 1  y == ((i - 1) % s.ny) + 1 IN
                      <<s.times[t]>> \o (IF s.from.k = "text" THEN <<s.lats[y][1], s.lons[y][1], s.elevs[y][1]>> ELSE <<>>) \o V(t, y)
       IN [s |-> r, rows |-> Tab([i \in 1..(NT(s) * s.ny) |-> Line(i)])]

\* ---- what is found on disk --------------------------------------------------------------------
NumAtts == {"_FillValue", "scale_factor", "add_offset"}
SameAtts(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : IF k \in NumAtts THEN RNear(a[k], b[k], Tiny, Eps) ELSE a[k] = b[k]
CloseRaw(v, a, b) == (~IsFin(a) /\ ~IsFin(b)) \/ (IsFin(a) /\ IsFin(b) /\ (IF Whole(v) THEN RNear(a, b, RLit("0.501"), Eps) ELSE RNear(a, b, RLit("1e-5"), RLit("1e-6"))))
SameNcVar(o, v) == /\ o.dims = v.dims /\ o.type = v.type /\ SameAtts(o.atts, v.atts)
                 /\ Len(o.data) = Len(v.data)
                 /\ (v.loose \/ \A i \in 1..Len(o.data) : CloseRaw(v, o.data[i], v.data[i]))
Ends(s, tail) == Len(s) >= Len(tail) /\ SubSeq(s, Len(s) - Len(tail) + 1, Len(s)) = tail
HistOk(o, hist) == IF hist = <<>> THEN "history" \notin DOMAIN o
                   ELSE /\ "history" \in DOMAIN o /\ Len(o.history) = Len(hist)
                        /\ \A i \in 1..Len(hist) : IF hist[i].known THEN o.history[i] = hist[i].s ELSE Ends(o.history[i], hist[i].s)
NcDumpOk(out, img) ==
  /\ out.exists = TRUE /\ DOMAIN out.dims = DOMAIN img.dims /\ \A d \in DOMAIN img.dims : out.dims[d] = img.dims[d].size
  /\ DOMAIN out.vars = DOMAIN img.vars /\ \A n \in DOMAIN img.vars : SameNcVar(out.vars[n], img.vars[n])
  /\ HistOk(out.atts, img.hist)
\* to two decimals, locations to more
RowsOk(out, rows, text) ==
  /\ Len(out) = Len(rows)
  /\ \A i \in 1..Len(rows) : /\ Len(out[i]) = Len(rows[i])
                             /\ \A j \in 1..Len(rows[i]) : RNear(out[i][j], rows[i][j], IF j = 1 \/ (text /\ j \in {2, 3}) THEN RLit("1e-5") ELSE RLit("0.00501"), RLit("1e-6"))

DiskOps == {"f_open", "f_close", "f_write", "f_vars", "nc_dump", "t_dump", "q_dump"}
Written(s, in) == IF s.from.k = "nc" THEN NcWrite(s, in.vars, in.msg) ELSE [TextRows(s, in.vars) EXCEPT !.s = @]
\* units and names as they were when the file was opened
UnitOf(s, n, k) == Att(s.from.first[n], k, "")
DiskAllowed(fl, disk, e) ==
  LET in == e.in  op == e.op IN
  IF op = "f_open" THEN IF OpenOf(disk, in).o = "ok" THEN IsOk(e) ELSE IsErr(e)
  ELSE IF op = "f_close" THEN IsOk(e)
  ELSE IF op = "f_write" THEN
    LET s == fl[in.f] IN
    IF s.from.k = "nc" THEN LET w == NcWrite(s, in.vars, in.msg) IN IF w.bad THEN IsErr(e) ELSE (IsErr(e) /\ w.may) \/ IsOk(e)
    ELSE IF s.from.k = "bulletin" THEN IF BulletinRefused(s, in.vars) THEN IsErr(e) ELSE IsOk(e)
    ELSE IsOk(e)
  ELSE IF op = "f_vars" THEN
    LET s == fl[in.f] IN
    IsOk(e) /\ Len(e.out) = Len(in.names) /\ \A i \in 1..Len(in.names) :
      LET n == in.names[i]  k == n \in s.names IN e.out[i].known = k /\ (k /\ (IF s.from.k = "nc" THEN n \in DOMAIN s.from.first ELSE FALSE) => e.out[i].units = UnitOf(s, n, "units") /\ e.out[i].std = UnitOf(s, n, "standard_name"))
  ELSE IF op = "nc_dump" THEN IsOk(e) /\ (in.path \in DOMAIN disk => disk[in.path].k = "nc" /\ NcDumpOk(e.out, disk[in.path]))
  ELSE IF op = "q_dump" THEN IsOk(e) /\ (in.path \in DOMAIN disk => disk[in.path].k = "bulletin" /\ BulletinOk(e.out, disk[in.path]))
  ELSE IF op = "t_dump" THEN IsOk(e) /\ (in.path \in DOMAIN disk => disk[in.path].k = "rows" /\ RowsOk(e.out, disk[in.path].rows, disk[in.path].text))
  ELSE FALSE
\* [fl, disk] afterwards; what is found on disk is taken for exactly that from then on
DiskAfter(fl, disk, e) ==
  LET in == e.in  op == e.op IN
  IF op = "f_open" THEN LET r == OpenOf(disk, in) IN IF r.o = "ok" THEN [fl |-> With(fl, in.f, r.s), disk |-> disk] ELSE [fl |-> fl, disk |-> disk]
  ELSE IF op = "f_write" THEN
    LET s == fl[in.f] IN
    IF s.from.k = "nc" THEN LET w == NcWrite(s, in.vars, in.msg) IN [fl |-> With(fl, in.f, w.s), disk |-> With(disk, s.from.path, w.s.from.img)]
    ELSE IF s.from.k \in {"text", "point"} THEN LET w == TextRows(s, in.vars) IN
         [fl |-> With(fl, in.f, IF s.from.k = "point" THEN [w.s EXCEPT !.from.rows = w.rows] ELSE w.s), disk |-> With(disk, s.from.path, [k |-> "rows", text |-> s.from.k = "text", rows |-> w.rows])]
    ELSE IF s.from.k = "bulletin" THEN [fl |-> fl, disk |-> With(disk, s.from.path, BulletinText(s, in.vars))]
    ELSE [fl |-> fl, disk |-> disk]
  ELSE IF op = "nc_dump" /\ in.path \in DOMAIN disk /\ NcDumpOk(e.out, disk[in.path]) THEN
    [fl |-> fl, disk |-> With(disk, in.path, [disk[in.path] EXCEPT !.vars = [n \in DOMAIN @ |-> [@[n] EXCEPT !.data = e.out.vars[n].data, !.loose = FALSE]]])]
  ELSE IF op = "t_dump" /\ in.path \in DOMAIN disk THEN [fl |-> fl, disk |-> With(disk, in.path, [disk[in.path] EXCEPT !.rows = e.out])]
  ELSE [fl |-> fl, disk |-> disk]
=============================================================================
