----------------------------- MODULE ClientStore -----------------------------
(* A file as a store of fields, keyed by variable and time, filled lazily    *)
(* from what lies under it.  Beside it the grid with its identity (the tag). *)
EXTENDS ClientNc

NT(s) == Len(s.times)
None == [has |-> FALSE]
Some(f) == [has |-> TRUE, f |-> f]
MVField(s) == Filled(s.ny, s.nx, s.ne, MV)

\* ---- files ----------------------------------------------------------------------
\* longitudes are kept between -180 and 180
NormLon(x) == IF RLt(180, x) THEN IF RLt(360, x) THEN x ELSE RSub(x, 360) ELSE IF RLt(x, 0 - 180) THEN RAdd(x, 360) ELSE x
NormLons(g) == Tab([y \in 1..Len(g) |-> [x \in 1..Len(g[y]) |-> IF CValid(g[y][x]) THEN NormLon(g[y][x]) ELSE g[y][x]]])
GridMV(ny, nx) == Tab([y \in 1..ny |-> [x \in 1..nx |-> MV]])
Shaped(g, ny, nx) == Len(g) = ny /\ Len(g[1]) = nx
MemNew(in) ==
  LET ny == Len(in.lats)  nx == Len(in.lats[1])
      under == IF "vars" \in DOMAIN in THEN in.vars ELSE <<>>
  IN [fake |-> FALSE, ny |-> ny, nx |-> nx, ne |-> Opt(in, "ens", 1), times |-> Opt(in, "times", <<0>>), ref |-> Opt(in, "ref", MV),
      lats |-> in.lats, lons |-> NormLons(in.lons), elevs |-> Opt(in, "elevs", GridMV(ny, nx)), lafs |-> Opt(in, "lafs", GridMV(ny, nx)),
      haselevs |-> "elevs" \in DOMAIN in, under |-> under, names |-> DOMAIN under, fs |-> <<>>, al |-> <<>>, tag |-> <<>>, old |-> {}, from |-> [k |-> "mem"]]
FakeNew(o) ==
  LET ny == Opt(o, "nLat", 10)  nx == Opt(o, "nLon", 10) IN
  [fake |-> TRUE, ny |-> ny, nx |-> nx, ne |-> Opt(o, "nEns", 2), times |-> Tab([i \in 1..Opt(o, "nTime", 10) |-> i - 1]), ref |-> MV,
   lats |-> Tab([y \in 1..ny |-> [x \in 1..nx |-> RAdd(50, RDiv(RMul(10, y - 1), ny))]]), lons |-> Tab([y \in 1..ny |-> [x \in 1..nx |-> RDiv(RMul(10, x - 1), nx)]]),
   elevs |-> Tab([y \in 1..ny |-> [x \in 1..nx |-> 0]]), lafs |-> Tab([y \in 1..ny |-> [x \in 1..nx |-> RAdd(RDiv(y - 1, 2 * ny), RDiv(x - 1, nx))]]),
   haselevs |-> TRUE, under |-> <<>>, names |-> {}, fs |-> <<>>, al |-> <<>>, tag |-> <<>>, old |-> {}, from |-> [k |-> "mem"]]
UnderHas(s, n) == s.fake \/ n \in DOMAIN s.under \/ (s.from.k = "nc" /\ n \in DOMAIN s.from.img.vars) \/ s.from.k \in {"text", "point", "bulletin"}
\* what lies under a file: its own fields, or what is on disk (the level only matters there)
UnderL(s, n, t, lev) ==
  CASE s.fake -> Tab([y \in 1..s.ny |-> [x \in 1..s.nx |-> [e \in 1..s.ne |-> y + x + e - 3]]])
    [] s.from.k = "bulletin" -> MVField(s)
    [] s.from.k = "nc" -> NcField(s.from.img, s.from.h, n, t, lev, s.ny, s.nx, s.ne)
       \* one field per time of the file, in order, for any variable
    [] s.from.k = "text" -> IF t >= Len(s.from.fields) THEN MVField(s)
                            ELSE LET g == s.from.fields[t + 1] IN Tab([y \in 1..s.ny |-> << [e \in 1..s.ne |-> IF e <= Len(g[y]) THEN g[y][e] ELSE MV] >>])
    [] s.from.k = "point" -> LET ix == {i \in 1..Len(s.from.rows) : REq(s.from.rows[i][1], s.times[t + 1])} IN
                             IF ix = {} THEN MVField(s) ELSE LET g == s.from.rows[MaxIn(ix)] IN << << [e \in 1..s.ne |-> g[e + 1]] >> >>
    [] OTHER -> s.under[n][t + 1]

\* ---- reading and storing ------------------------------------------------------------
Slots(s, n) == IF n \in DOMAIN s.fs THEN s.fs[n] ELSE [t \in 1..NT(s) |-> None]
\* a name is first looked for among the variables, then among the aliases
Resolve(s, n) == IF n \in s.names THEN n ELSE IF n \in DOMAIN s.al THEN s.al[n] ELSE n
WithName(s, n) == [s EXCEPT !.names = @ \cup {n}]
SetSlots(s, n, v) == WithName([s EXCEPT !.fs = With(s.fs, n, Tab(v))], n)
\* the store after the field of n at time t has been asked for
ReadL(s, n, t, skip, lev) ==
  LET v == Slots(s, n) IN
  IF v[t + 1].has THEN WithName(s, n)
  ELSE IF UnderHas(s, n) /\ ~skip THEN SetSlots(s, n, [v EXCEPT ![t + 1] = Some(UnderL(s, n, t, lev))])
  ELSE SetSlots(s, n, [i \in 1..NT(s) |-> IF v[i].has THEN v[i] ELSE Some(MVField(s))])
Read(s, n, t, skip) == ReadL(s, n, t, skip, 0)
FieldAt(s, n, t, skip) == Read(s, n, t, skip).fs[n][t + 1].f
\* a level the file does not have, asked for when the field has to be read
NoLevel(s, n, t, lev, skip) == s.from.k = "nc" /\ ~skip /\ ~Slots(s, n)[t + 1].has /\ n \in DOMAIN s.from.img.vars /\ LevelBad(s.from.img, s.from.h, s.from.img.vars[n], lev)
Store(s, n, t, f) == SetSlots(s, n, [Slots(s, n) EXCEPT ![t + 1] = Some(f)])
HasVar(s, n) == UnderHas(s, n) \/ n \in DOMAIN s.fs
InitVar(s, n) == IF HasVar(s, n) \/ NT(s) = 0 THEN s ELSE SetSlots(s, n, [i \in 1..NT(s) |-> Some(MVField(s))])

\* ---- the operations -------------------------------------------------------------------
StoreOps == {"f_new", "f_get", "f_poke", "f_add", "f_empty", "f_init", "f_has", "f_clear", "f_cache", "f_tag", "f_alias", "f_setlats", "f_setlons", "f_setelevs", "f_setlafs",
             "f_grid", "f_dims", "f_same", "f_settimes", "f_setens", "f_setref"}
AskedName(s, in) == IF Opt(in, "byvar", FALSE) = TRUE THEN in.v ELSE Resolve(s, in.v)
AskedSkip(in) == Opt(in, "byvar", FALSE) = TRUE /\ in.skip = TRUE
SameGrid(g, h) == Len(g) = Len(h) /\ \A y \in 1..Len(g) : Len(g[y]) = Len(h[y]) /\ \A x \in 1..Len(g[y]) : CNear(g[y][x], h[y][x], RLit("4e-5"), 0)
EqualGrid(g, h) == Len(g) = Len(h) /\ \A y \in 1..Len(g) : Len(g[y]) = Len(h[y]) /\ \A x \in 1..Len(g[y]) : IsFin(g[y][x]) /\ IsFin(h[y][x]) /\ REq(g[y][x], h[y][x])
BadLat(g) == \E y \in 1..Len(g) : \E x \in 1..Len(g[y]) : IsFin(g[y][x]) /\ (RLt(g[y][x], 0 - 90) \/ RLt(90, g[y][x]))
BadLon(g) == \E y \in 1..Len(g) : \E x \in 1..Len(g[y]) : IsFin(g[y][x]) /\ (RLt(g[y][x], 0 - 360) \/ RLt(360, g[y][x]))
OtherTags(fl, f) == UNION {{fl[g].tag[i] : i \in 1..Len(fl[g].tag)} \cup fl[g].old : g \in DOMAIN fl \ {f}}

StoreAllowed(fl, e) ==
  LET in == e.in  op == e.op  s == fl[in.f] IN
  IF op = "f_new" THEN IsOk(e)
  ELSE IF op = "f_get" THEN
    IF in.t >= NT(s) THEN IsErr(e)
    ELSE LET n == AskedName(s, in)  lev == Opt(in, "level", 0) IN
         IF NoLevel(s, n, in.t, lev, AskedSkip(in)) THEN IsErr(e)
         ELSE IsOk(e) /\ RoundedField(e.out, ReadL(s, n, in.t, AskedSkip(in), lev).fs[n][in.t + 1].f)
  ELSE IF op = "f_poke" THEN IF in.t >= NT(s) THEN IsErr(e) ELSE IsOk(e)
  ELSE IF op \in {"f_add", "f_init", "f_clear", "f_alias", "f_settimes", "f_setref"} THEN IsOk(e)
  ELSE IF op = "f_setens" THEN IsOk(e) /\ e.out = TRUE
  ELSE IF op = "f_empty" THEN IsOk(e) /\ SameField(e.out, Filled(s.ny, s.nx, s.ne, Opt(in, "fill", MV)))
  ELSE IF op = "f_has" THEN IsOk(e) /\ e.out = HasVar(s, in.v)
  ELSE IF op = "f_cache" THEN IsOk(e) /\ e.out = 4 * Cardinality(DOMAIN s.fs) * NT(s) * s.ny * s.nx * s.ne
  ELSE IF op = "f_tag" THEN IsOk(e) /\ (Len(s.tag) = 1 => e.out = s.tag[1]) /\ e.out \notin s.old /\ e.out \notin OtherTags(fl, in.f)
  ELSE IF op = "f_setlats" THEN IF ~Shaped(in.x, s.ny, s.nx) THEN IsOk(e) /\ e.out = FALSE ELSE IF BadLat(in.x) THEN IsErr(e) ELSE IsOk(e) /\ e.out = TRUE
  ELSE IF op = "f_setlons" THEN IF ~Shaped(in.x, s.ny, s.nx) THEN IsOk(e) /\ e.out = FALSE ELSE IF BadLon(in.x) THEN IsErr(e) ELSE IsOk(e) /\ e.out = TRUE
  ELSE IF op \in {"f_setelevs", "f_setlafs"} THEN IsOk(e) /\ e.out = Shaped(in.x, s.ny, s.nx)
  ELSE IF op = "f_grid" THEN IsOk(e) /\ SameGrid(e.out.lats, s.lats) /\ SameGrid(e.out.lons, s.lons) /\ SameGrid(e.out.elevs, s.elevs) /\ SameGrid(e.out.lafs, s.lafs) /\ e.out.has = s.haselevs
  ELSE IF op = "f_dims" THEN IsOk(e) /\ e.out.y = s.ny /\ e.out.x = s.nx /\ e.out.e = s.ne /\ e.out.t = NT(s) /\ CSame(e.out.ref, s.ref)
                             /\ Len(e.out.times) = NT(s) /\ \A i \in 1..NT(s) : CSame(e.out.times[i], s.times[i])
  ELSE IF op = "f_same" THEN LET g == fl[in.g] IN IsOk(e) /\ e.out = (s.ny = g.ny /\ s.nx = g.nx /\ s.ne = g.ne /\ NT(s) = NT(g))
  ELSE FALSE
\* a changed grid has a new tag; old: tags it no longer has
Retag(s, changed) == IF changed THEN [s EXCEPT !.tag = <<>>, !.old = @ \cup {s.tag[i] : i \in 1..Len(s.tag)}] ELSE s
StoreAfter(fl, e) ==
  LET in == e.in  op == e.op
      Up(s) == With(fl, in.f, s)
  IN
  IF op = "f_new" THEN Up(IF "fake" \in DOMAIN in THEN FakeNew(in.fake) ELSE MemNew(in))
  ELSE LET s == fl[in.f] IN
  IF op = "f_get" THEN Up(ReadL(s, AskedName(s, in), in.t, AskedSkip(in), Opt(in, "level", 0)))
  ELSE IF op = "f_poke" THEN LET n == Resolve(s, in.v)  r == Read(s, n, in.t, FALSE) IN Up(Store(r, n, in.t, Tab([r.fs[n][in.t + 1].f EXCEPT ![in.y + 1][in.x + 1][in.e + 1] = in.val])))
  ELSE IF op = "f_add" THEN Up(Store(s, in.v, in.t, in.field))
  ELSE IF op = "f_init" THEN Up(InitVar(s, in.v))
  ELSE IF op = "f_clear" THEN Up([s EXCEPT !.fs = <<>>])
  ELSE IF op = "f_alias" THEN Up([s EXCEPT !.al = With(s.al, in.a, in.v)])
  ELSE IF op = "f_tag" THEN Up([s EXCEPT !.tag = <<e.out>>])
  ELSE IF op = "f_setlats" /\ e.out = TRUE THEN Up([Retag(s, ~EqualGrid(in.x, s.lats)) EXCEPT !.lats = in.x])
  ELSE IF op = "f_setlons" /\ e.out = TRUE THEN
    \* longitudes that are the same but written another way may or may not count as another grid
    LET same == EqualGrid(in.x, s.lons)  same2 == EqualGrid(NormLons(in.x), s.lons) IN
    Up([(IF same THEN s ELSE IF same2 THEN [s EXCEPT !.tag = <<>>] ELSE Retag(s, TRUE)) EXCEPT !.lons = NormLons(in.x)])
  ELSE IF op = "f_setelevs" /\ e.out = TRUE THEN Up([s EXCEPT !.elevs = in.x, !.haselevs = TRUE])
  ELSE IF op = "f_setlafs" /\ e.out = TRUE THEN Up([s EXCEPT !.lafs = in.x])
  ELSE IF op = "f_settimes" THEN Up([s EXCEPT !.times = in.x])
  ELSE IF op = "f_setens" THEN Up([s EXCEPT !.ne = in.n])
  ELSE IF op = "f_setref" THEN Up([s EXCEPT !.ref = in.t])
  ELSE fl
=============================================================================
