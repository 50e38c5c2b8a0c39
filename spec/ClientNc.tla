------------------------------ MODULE ClientNc ------------------------------
(* A NetCDF file as it lies on disk: dimensions, variables over them with    *)
(* their values laid out with the last dimension running fastest, and        *)
(* attributes.  How a variable is seen as fields over the grid, whatever the *)
(* order of its dimensions.                                                  *)
EXTENDS ClientBase

\* what the library writes where nothing was written
CFill == RLit("9.969209968386869e36")
Att(v, k, d) == IF k \in DOMAIN v.atts THEN v.atts[k] ELSE d
NcFill(v) == Att(v, "_FillValue", CFill)
UnwrittenOf(v) == Att(v, "_FillValue", IF v.type = "s" THEN 0 - 32767 ELSE IF v.type = "i" THEN 0 - 2147483647 ELSE IF v.type = "b" THEN 0 - 127 ELSE CFill)
Whole(v) == v.type \in {"s", "i", "b"}
Lowest(v) == IF v.type = "s" THEN 0 - 32768 ELSE IF v.type = "b" THEN 0 - 128 ELSE 0 - 2147483647
Highest(v) == IF v.type = "s" THEN 32767 ELSE IF v.type = "b" THEN 127 ELSE 2147483647
ScaleOf(v) == Att(v, "scale_factor", 1)
OffsetOf(v) == Att(v, "add_offset", 0)
Raw(v, x) == IF ~IsFin(x) \/ REq(x, NcFill(v)) THEN MV ELSE x
Unpack(v, x) == IF ~IsFin(x) \/ REq(x, NcFill(v)) THEN MV ELSE RAdd(RMul(ScaleOf(v), x), OffsetOf(v))
Packed(v, x) == IF CMissing(x) THEN NcFill(v) ELSE RDiv(RSub(x, OffsetOf(v)), ScaleOf(v))

\* ---- positions -------------------------------------------------------------------
SizesOf(img, v) == Tab([i \in 1..Len(v.dims) |-> img.dims[v.dims[i]].size])
RECURSIVE Prod(_, _), FlatAt(_, _, _, _)
Prod(sz, i) == IF i > Len(sz) THEN 1 ELSE sz[i] * Prod(sz, i + 1)
FlatAt(sz, c, i, acc) == IF i > Len(sz) THEN acc ELSE FlatAt(sz, c, i + 1, acc * sz[i] + c[i])
FlatIx(sz, c) == FlatAt(sz, c, 1, 0) + 1
\* the position (one index per dimension) of the i-th value
CoordOf(sz, i) == Tab([d \in 1..Len(sz) |-> ((i - 1) \div Prod(sz, d + 1)) % sz[d]])
DimIx(v, d) == LET ix == {i \in 1..Len(v.dims) : v.dims[i] = d} IN IF ix = {} THEN 0 ELSE MinIn(ix)
HasDimOf(v, d) == DimIx(v, d) > 0

\* ---- a variable as fields: h names the dimensions (t, e, y, x; "" for none) -----------
OtherDims(h, v) == {i \in 1..Len(v.dims) : v.dims[i] \notin {h.t, h.e, h.y, h.x}}
LevelBad(img, h, v, lev) == \E i \in OtherDims(h, v) : LET n == img.dims[v.dims[i]].size IN n > 1 /\ lev >= n
CellPos(img, h, v, t, y, x, e, lev) ==
  [i \in 1..Len(v.dims) |-> LET d == v.dims[i] IN
     IF d = h.t THEN t ELSE IF d = h.e THEN e ELSE IF d = h.y THEN y ELSE IF d = h.x THEN x ELSE IF img.dims[d].size > 1 THEN lev ELSE 0]
NcField(img, h, n, t, lev, ny, nx, ne) ==
  LET v == img.vars[n]
      sz == SizesOf(img, v)
      late == HasDimOf(v, h.t) /\ t >= img.dims[h.t].size
      nE == IF HasDimOf(v, h.e) THEN img.dims[h.e].size ELSE 1
      nY == IF HasDimOf(v, h.y) THEN ny ELSE 1
      nX == IF HasDimOf(v, h.x) THEN nx ELSE 1
  IN Tab([y \in 1..ny |-> [x \in 1..nx |-> [e \in 1..ne |->
       IF late \/ e > nE \/ y > nY \/ x > nX THEN MV ELSE Unpack(v, v.data[FlatIx(sz, CellPos(img, h, v, t, y - 1, x - 1, e - 1, lev))])]]])

\* ---- the grid ----------------------------------------------------------------------------
\* a variable along one or both horizontal dimensions, as values on the grid
GridFits(h, v) == IF Len(v.dims) = 1 THEN v.dims[1] \in {h.x, h.y} ELSE HasDimOf(v, h.x) /\ HasDimOf(v, h.y)
GridOfVar(img, h, v, ny, nx) ==
  LET sz == SizesOf(img, v) IN
  Tab([y \in 1..ny |-> [x \in 1..nx |-> Raw(v, v.data[FlatIx(sz, [i \in 1..Len(v.dims) |-> IF v.dims[i] = h.y THEN y - 1 ELSE IF v.dims[i] = h.x THEN x - 1 ELSE 0])])]])
FirstNamed(s, S) == LET ix == {i \in 1..Len(s) : s[i] \in S} IN IF ix = {} THEN "" ELSE s[MinIn(ix)]
=============================================================================
