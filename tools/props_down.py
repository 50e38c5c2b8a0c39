from props import *
from props_geo import Region, mk_points, mk_grid, a_query

def targets(r, reg, d, grid, n=None, meta=True):
    """Where to: points at, between, beside and far from the locations of d."""
    n = r.count(r.choice([1, 2, 4, 6]) if n is None else n)
    q = [a_query(r, reg, d, grid) for _ in range(n)]
    if r.chance(0.3):           # a walk: the next location shares a coordinate with the one before
        for i in range(1, len(q)): q[i] = r.choice([(q[i-1][0], q[i][1]), (q[i][0], q[i-1][1]), q[i], q[i-1]])
    p = {"lats": [a for a, _ in q], "lons": [b for _, b in q], "type": reg.type}
    if meta and r.chance(0.85): p["elevs"] = r.vec(n, lambda: f32(r.randint(0, 20) * 50), miss=r.choice([0, 0, 0.2]))
    if meta and r.chance(0.85): p["lafs"] = r.vec(n, lambda: f32(r.randint(0, 10) / 10), miss=r.choice([0, 0, 0.2]))
    return p
def shape_of(d): return (len(d["lats"]), len(d["lats"][0]) if d["lats"] else 0)
def output_for(r, reg, d, grid):
    """("g" or "p", locations to go to); now and then none, or of the other coordinate type."""
    k = r.random()
    if k < 0.5: t = ("g", mk_grid(r, reg))
    else: t = ("p", targets(r, reg, d, grid))
    if r.chance(0.02): t = ("g", {"lats": [], "lons": [], "type": reg.type}) if t[0] == "g" else ("p", {"lats": [], "lons": [], "type": reg.type})
    if r.chance(0.02):
        o = Region(r, "cart" if reg.type == "geo" else "geo")
        t = ("g", mk_grid(r, o)) if t[0] == "g" else ("p", mk_points(r, o, 3))
    return t
def values_for(r, d, grid, nt, style=None, miss=None):
    def one():
        if grid:
            ny, nx = shape_of(d)
            return r.vec2(ny, nx, style, miss)
        return r.vec(len(d["lats"]), style, miss)
    if nt == 0:
        x = one()
        if r.chance(0.02) and len(x) > 0: x = x[:-1]
        return x
    n = r.count(r.choice([0, 1, 2, 3]) if r.chance(0.3) else 2)
    x = [one() for _ in range(n)]
    if r.chance(0.02) and n > 1 and len(x[1]) > 0: x[1] = x[1][:-1]
    return x
def source(r, reg, shape=None, meta=True):
    d = mk_grid(r, reg, meta=meta, shape=shape)
    if r.chance(0.02): d = {"lats": [], "lons": [], "type": reg.type}
    return d

def case_nearest(r):
    reg = Region(r)
    grid = r.chance(0.65)
    d = source(r, reg, meta=False) if grid else mk_points(r, reg, r.choice([0, 1, 2, 5, 9]), meta=False)
    tk, t = output_for(r, reg, d, grid)
    nt = r.randint(0, 1)
    x = values_for(r, d, grid, nt)
    ev = []
    a = {"from": d, "to": t, "x": x, "fk": "g" if grid else "p", "tk": tk, "nt": nt}
    op = "nearest_%s%s%d" % ("g" if grid else "p", tk, nt + (1 if tk == "p" and not grid else 2 if grid else 1))
    ev.append((op, a))
    if grid and r.chance(0.4): ev.append(("downscaling_g%s%d" % (tk, nt + 2), dict(a, d="Nearest")))
    return ev
@check("G03")
def g03(run):
    r = rng(run)
    n = 12000 if run.quick() else 100000
    run.sessions([case_nearest(r) for _ in range(n)] + r.larger(case_nearest, n // 200), opts={"thr": 2})

NICE = ["reg", "reg", "stretch", "desc", "shear", "rot"]
def case_bilinear(r):
    reg = Region(r)
    d = source(r, reg, meta=False, shape=None if reg.kind == "globe" else r.choice(NICE + ["dist", "dist", "dup", "fan", "fan"]))
    tk, t = output_for(r, reg, d, True)
    nt = r.randint(0, 1)
    x = values_for(r, d, True, nt)
    if r.chance(0.25) and nt == 0 and shape_of(d)[0] == len(x) > 0:   # linear in the coordinates
        a, b = r.choice([1.0, -2.0, 0.5]), r.choice([1.0, 3.0, 0.0])
        x = [[f32(a * (p - reg.lat0) + b * (q - reg.lon0)) for p, q in zip(*z)] for z in zip(d["lats"], d["lons"])]
    a = {"from": d, "to": t, "x": x, "fk": "g", "tk": tk, "nt": nt}
    ev = [("bilinear_g%s%d" % (tk, nt + 2), a)]
    if r.chance(0.3): ev.append(("downscaling_g%s%d" % (tk, nt + 2), dict(a, d="Bilinear")))
    return ev
@check("G04")
def g04(run):
    r = rng(run)
    n = 12000 if run.quick() else 60000
    run.sessions([case_bilinear(r) for _ in range(n)] + r.larger(case_bilinear, n // 200), opts={"thr": 2})

def case_gradient(r):
    reg = Region(r)
    d = source(r, reg, shape=None if reg.kind == "globe" else r.choice(NICE + ["fan"]))
    tk, t = output_for(r, reg, d, True)
    nt = r.randint(0, 1)
    st = r.choice([lambda: f32(r.randint(-100, 300) / 10), lambda: float(r.randint(-5, 5)), lambda: r.f(-30, 30)])
    x = values_for(r, d, True, nt, st)
    a = {"from": d, "to": t, "x": x, "fk": "g", "tk": tk, "nt": nt, "d": r.choice(["Nearest", "Bilinear"])}
    if r.chance(0.5):
        return [("simple_gradient_g%s%d" % (tk, nt + 2), dict(a, eg=r.choice([f32(-0.0065), 0.0, f32(0.01), -1.0, r.f(-1, 1), NAN])))]
    def grad(s, p):
        if r.chance(p): return []
        g = values_for(r, d, True, nt, s, r.choice([0, 0, 0.2]))
        if nt == 1:
            while len(g) < len(x): g.append(r.vec2(*shape_of(d), s, 0))
            if not r.chance(0.03): g = g[:len(x)]
        return g
    return [("full_gradient_g%s%d" % (tk, nt + 2), dict(a, eg=grad(lambda: f32(r.randint(-20, 20) / 1000), 0.2), lg=grad(lambda: float(r.randint(-5, 5)), 0.3)))]
@check("G05")
def g05(run):
    r = rng(run)
    n = 12000 if run.quick() else 60000
    run.sessions([case_gradient(r) for _ in range(n)] + r.larger(case_gradient, n // 200), opts={"thr": 2})

# ---- structure functions ------------------------------------------------------------------------------
KINDS = ["Barnes", "Barnes", "Soar", "Toar", "Powerlaw", "Linear", "Cressman"]
def scale_for(r, kind, u):
    if kind == "Linear": return f32(r.choice([0.0, 1.0, 0.5, r.random()]))
    return f32(u * r.choice([0.3, 1.0, 2.5, r.uniform(0.1, 5)]))
def a_struct(r, reg, depth=0, spatial=True, kinds=KINDS, refs=()):
    if refs and r.chance(0.3): return {"ref": r.choice(refs)}
    c = r.random()
    if depth < 2 and c < 0.12:
        return {"kind": "Multiple", "sh": a_struct(r, reg, depth + 1, spatial, kinds, refs), "sv": a_struct(r, reg, depth + 1, spatial, kinds, refs), "sw": a_struct(r, reg, depth + 1, spatial, kinds, refs)}
    if depth < 2 and c < 0.22:
        return {"kind": "CrossValidation", "s": a_struct(r, reg, depth + 1, spatial, kinds, refs), "dist": f32(reg.unit() * r.choice([0.0, 0.5, 1.2, 3.0]))}
    k = r.choice(kinds)
    def V(): return scale_for(r, k, 300) if r.chance(0.6) else 0.0
    def W(): return scale_for(r, k, 0.5) if r.chance(0.6) else 0.0
    if spatial and c < 0.45 and k != "Cressman":
        g = mk_grid(r, reg, ny=r.choice([1, 2, 3]), nx=r.choice([1, 2, 3]), meta=False)
        ny, nx = (1, 1) if r.chance(0.15) else shape_of(g)
        d = {"kind": k, "grid": g, "h": [[scale_for(r, k, reg.unit()) for _ in range(nx)] for _ in range(ny)],
             "v": [[V() for _ in range(nx)] for _ in range(ny)], "w": [[W() for _ in range(nx)] for _ in range(ny)]}
        if r.chance(0.03) and nx > 1: d["w"][-1] = d["w"][-1][:-1]
        if r.chance(0.5): d["minrho"] = f32(r.choice([0.0013, 0.1, 0.5, 0.01, r.uniform(0.001, 0.9)]))
    else:
        d = {"kind": k, "h": scale_for(r, k, reg.unit()), "v": V(), "w": W()}
        if k not in ("Linear", "Cressman") and r.chance(0.4): d["hmax"] = f32(reg.unit() * r.choice([0.0, 0.7, 1.5, 4.0]))
        if r.chance(0.02): d[r.choice(["h", "v", "w"])] = r.choice([NAN, -1.0, INF])
    if r.chance(0.15): d["clone"] = True
    return d
def a_point(r, reg, near=None):
    lat, lon = (reg.lat(r.uniform(-1, 5)), reg.lon(r.uniform(-1, 5))) if r.chance(0.5) else (reg.lat(r.randint(0, 4)), reg.lon(r.randint(0, 4)))
    if near and r.chance(0.3): lat, lon = near["lat"], near["lon"]
    return {"lat": lat, "lon": lon, "elev": NAN if r.chance(0.1) else f32(r.randint(0, 20) * 50), "laf": NAN if r.chance(0.1) else f32(r.randint(0, 10) / 10), "type": reg.type}
def case_struct(r):
    reg = Region(r)
    ev, ids = [], []
    for k in range(r.randint(0, 3)):
        if ids and r.chance(0.3): ev.append(("struct_clone", {"id": "s%d" % k, "from": r.choice(ids)})); ids.append("s%d" % k)
        else:
            d = a_struct(r, reg, refs=ids)
            ev.append(("mk_struct", {"id": "s%d" % k, "def": d}))
            if ok_struct(d): ids.append("s%d" % k)
    if ids and r.chance(0.3): ev.append(("struct_del", {"id": ids.pop(0)}))
    for _ in range(r.randint(2, 6)):
        p = a_point(r, reg)
        s = {"ref": r.choice(ids)} if ids and r.chance(0.7) else a_struct(r, reg)
        if r.chance(0.6): ev.append(("corr", {"s": s, "a": p, "b": a_point(r, reg, p)}))
        else: ev.append(("corr_list", {"s": s, "a": p, "b": [a_point(r, reg, p) for _ in range(r.choice([0, 1, 3, 6]))]}))
    return ev
def ok_struct(d):
    """Whether a definition can be built (the specification decides; this only keeps references alive)."""
    if "ref" in d: return True
    if d["kind"] == "Multiple": return all(ok_struct(d[k]) for k in ("sh", "sv", "sw"))
    if d["kind"] == "CrossValidation": return ok_struct(d["s"])
    if "grid" in d: return all(len(a) == len(b) for k in ("v", "w") for a, b in zip(d["h"], d[k]))
    return all(not math.isnan(d[k]) and not math.isinf(d[k]) and d[k] >= 0 for k in ("h", "v", "w"))
import math
def case_static(r):
    reg = Region(r, r.choice(["geo", "cart", "date"]))
    return [("staticcorr_points", {"points": mk_points(r, reg, r.choice([0, 1, 3, 5])), "knots": mk_points(r, reg, r.choice([0, 1, 4, 8])), "structure": a_struct(r, reg), "max_points": r.choice([0, 0, 1, 2, 5, -1] if r.chance(0.2) else [0, 0, 1, 2, 5])})]
@check("G17")
def g17(run):
    r = rng(run)
    n = 12000 if run.quick() else 60000
    run.sessions([case_struct(r) for _ in range(n)] + [case_static(r) for _ in range(n // 8)], opts={"thr": 2})

# ---- neighbours alike ------------------------------------------------------------------------------------
def case_smart(r):
    reg = Region(r, r.choice(["geo", "cart", "date", "small"]))
    d = source(r, reg)
    t = mk_grid(r, reg, ny=r.choice([1, 2, 3]), nx=r.choice([1, 2, 3]))
    if r.chance(0.02): t = {"lats": [], "lons": [], "type": reg.type}
    x = values_for(r, d, True, 0)
    return [("smart", {"from": d, "to": t, "x": x, "num": r.choice([1, 1, 2, 3, 5, 50, 0, -1] if r.chance(0.2) else [1, 2, 3, 5, 50]), "structure": a_struct(r, reg, spatial=r.chance(0.3), kinds=["Barnes", "Cressman", "Soar", "Toar", "Powerlaw"])})]
def case_search_nb(r):
    ny, nx = r.shape(6)
    if r.chance(0.02): ny, nx = r.choice([(0, 0), (2, 0)])
    s = r.style()
    search = r.vec2(ny, nx, r.choice([lambda: f32(r.randint(0, 10) / 10), lambda: r.f(0, 1), lambda: float(r.randint(0, 4))]))
    a, b = sorted([f32(r.choice([0.0, 0.2, 0.5, 1.0, 2.0, r.random()])) for _ in range(2)])
    if r.chance(0.02): a, b = b, a
    ap = [] if r.chance(0.5) else [[r.randint(0, 1) for _ in range(nx)] for _ in range(ny)]
    if r.chance(0.02): ap = [[1] * (nx + 1)] * ny
    x = r.vec2(ny, nx, s)
    if r.chance(0.02) and ny > 1: search = search[:-1]
    return [("neighbourhood_search", {"x": x, "search": search, "hw": r.choice([0, 1, 1, 2, 3, 9]) if r.chance(0.98) else -1, "tmin": a, "tmax": b, "delta": f32(r.choice([0.0, 0.1, 0.5, 1.0, r.random()])), "apply": ap})]
@check("G06")
def g06(run):
    r = rng(run)
    n = 9000 if run.quick() else 50000
    run.sessions([case_smart(r) for _ in range(n)] + [case_search_nb(r) for _ in range(n)] + r.larger(case_smart, n // 200) + r.larger(case_search_nb, n // 200), opts={"thr": 2})

def case_calc_gradient(r):
    ny, nx = r.shape(6)
    if r.chance(0.01): ny, nx = 0, 0
    bs = r.choice([lambda: float(r.randint(0, 20) * 50), lambda: r.f(0, 1000), lambda: r.f(0, 1), lambda: float(r.randint(0, 2)), lambda: f32(r.randint(0, 10) / 10), lambda: f32(-r.random() * 500)])
    base = r.vec2(ny, nx, bs)
    st = r.choice([lambda: f32(r.randint(-100, 300) / 10), lambda: float(r.randint(-5, 5)), lambda: r.f(270, 290)])
    v = r.vec2(ny, nx, st)
    if r.chance(0.15) and not any(math.isnan(b) or math.isinf(b) for q in base for b in q): v = [[f32(10 - 0.0065 * b) for b in q] for q in base]
    if r.chance(0.02): v = v + v
    hw = r.choice([1, 1, 2, 3, 10]) if r.chance(0.97) else r.choice([0, -1])
    return [("calc_gradient", {"base": base, "values": v, "type": r.choice(["MinMax", "LinearRegression"]), "hw": hw, "min_num": r.choice([0, 1, 2, 2, 3, 5, 10]) if r.chance(0.98) else -1,
                               "min_range": r.choice([0.0, f32(0.1), f32(0.5), 1.0, 50.0, 100.0, NAN]) if r.chance(0.98) else -1.0, "default": r.choice([0.0, f32(-0.0065), NAN, 3.0])})]
@check("G07")
def g07(run):
    r = rng(run)
    n = 24000 if run.quick() else 100000
    run.sessions([case_calc_gradient(r) for _ in range(n)] + r.larger(case_calc_gradient, n // 200), opts={"thr": 2})

# ---- points onto grids -------------------------------------------------------------------------------------
def case_gridding(r):
    reg = Region(r)
    grid = r.chance(0.6)
    t = (mk_grid(r, reg, meta=False) if grid else mk_points(r, reg, r.choice([0, 1, 2, 5, 9]), meta=False))
    if grid and r.chance(0.02): t = {"lats": [], "lons": [], "type": reg.type}
    k = "g" if grid else "p"
    c = r.random()
    if c < 0.65:
        p = targets(r, reg, t, grid, r.choice([0, 1, 2, 5, 8, 12]), meta=False) if r.chance(0.5) else mk_points(r, reg, r.choice([0, 1, 3, 8, 12]), meta=False)
        if r.chance(0.02): p = mk_points(r, Region(r, "cart" if reg.type == "geo" else "geo"), 3, meta=False)
        x = r.vec(len(p["lats"]))
        if r.chance(0.02): x = x + [1.0]
        a = {"to": t, "points": p, "x": x, "min_num": r.choice([0, 0, 1, 2, 3]) if r.chance(0.97) else -1, "stat": r.choice(STATS) if r.chance(0.98) else "Quantile"}
        if r.chance(0.5): return [("gridding_" + k, dict(a, radius=reg.radius(r) if r.chance(0.98) else r.choice([-1.0, NAN])))]
        return [("gridding_nearest_" + k, a)]
    fk = r.choice(["g", "p"])
    d = mk_grid(r, reg, meta=False) if fk == "g" else mk_points(r, reg, r.choice([0, 1, 2, 5, 9]), meta=False)
    if r.chance(0.02): d = mk_points(r, Region(r, "cart" if reg.type == "geo" else "geo"), 3, meta=False); fk = "p"
    if c < 0.82: return [("count_%s%s" % (fk, k), {"from": d, "to": t, "fk": fk, "tk": k, "radius": reg.radius(r) if r.chance(0.98) else r.choice([-1.0, NAN])})]
    return [("distance_%s%s" % (fk, k), {"from": d, "to": t, "fk": fk, "tk": k, "num": r.choice([1, 1, 2, 3, 10]) if r.chance(0.98) else r.choice([0, -1])})]
@check("G12")
def g12(run):
    r = rng(run)
    n = 18000 if run.quick() else 80000
    run.sessions([case_gridding(r) for _ in range(n)] + r.larger(case_gridding, n // 200), opts={"thr": 2})

def case_fill(r):
    if r.chance(0.4):
        return [("fill_missing", {"x": r.vec2(*((r.shape(7)) if r.chance(0.98) else (0, 0)))})]
    reg = Region(r)
    g = mk_grid(r, reg)
    if r.chance(0.02): g = {"lats": [], "lons": [], "type": reg.type}
    p = targets(r, reg, g, True, r.choice([0, 1, 2, 4]))
    if r.chance(0.02): p = mk_points(r, Region(r, "cart" if reg.type == "geo" else "geo"), 3)
    n = len(p["lats"])
    x = values_for(r, g, True, 0)
    rad = [reg.radius(r) for _ in range(n)]
    if r.chance(0.02) and n: rad[-1] = -1.0
    if r.chance(0.02): rad = rad + [1.0]
    k = r.random()
    if k < 0.4: return [("fill", {"grid": g, "x": x, "points": p, "radii": rad, "value": r.choice([NAN, 0.0, 7.0]), "outside": r.chance(0.5)})]
    obs = r.vec(n, miss=r.choice([0, 0, 0.3]))
    a = {"grid": g, "x": x, "points": p, "obs": obs, "max_elev": r.choice([NAN, NAN, 0.0, 100.0, 250.0, 500.0]) if r.chance(0.98) else -1.0}
    if k < 0.7:
        hw = [r.choice([0, 1, 1, 2, 10]) for _ in range(n)]
        if r.chance(0.02) and n: hw[0] = -1
        if r.chance(0.02): hw = hw + [1]
        return [("doping_square", dict(a, hw=hw))]
    return [("doping_circle", dict(a, radii=rad))]
@check("G13")
def g13(run):
    r = rng(run)
    n = 21000 if run.quick() else 90000
    run.sessions([case_fill(r) for _ in range(n)] + r.larger(case_fill, n // 200), opts={"thr": 2})

def case_prob(r):
    reg = Region(r)
    d = mk_grid(r, reg, meta=False)
    t = mk_grid(r, reg, meta=False)
    if r.chance(0.02): t = {"lats": [], "lons": [], "type": reg.type}
    if r.chance(0.02): d = {"lats": [], "lons": [], "type": reg.type}
    if r.chance(0.02): t = mk_grid(r, Region(r, "cart" if reg.type == "geo" else "geo"), meta=False)
    ny, nx = shape_of(d)
    ne = r.count(r.choice([1, 2, 3, 5])) if r.chance(0.97) else 0
    s = r.choice([lambda: float(r.randint(-3, 3)), lambda: r.f(-3, 3), lambda: f32(r.randint(-5, 5) / 10)])
    th = r.vec2(*shape_of(t), s)
    if r.chance(0.02): th = th + th
    cmp = r.choice(["Lt", "Leq", "Gt", "Geq"])
    if r.chance(0.4):
        x = r.vec3(ny, nx, ne, s)
        if r.chance(0.02): x = x[:-1]
        ev = [("downscale_probability", {"from": d, "to": t, "x": x, "threshold": th, "cmp": cmp})]
        if r.chance(0.3): ev.append(("downscale_probability", {"from": d, "to": t, "x": x, "threshold": th, "cmp": {"Lt": "Geq", "Geq": "Lt", "Leq": "Gt", "Gt": "Leq"}[cmp]}))
        return ev
    a = {"from": d, "to": t, "xt": r.vec3(ny, nx, ne), "xf": r.vec3(ny, nx, ne), "tv": r.vec3(ny, nx, ne, s), "threshold": th, "cmp": cmp}
    if r.chance(0.02): k = r.choice(["xt", "xf", "tv"]); a[k] = a[k] + a[k]
    if r.chance(0.5): return [("mask_consensus", dict(a, stat=r.choice(STATS) if r.chance(0.98) else "Quantile"))]
    return [("mask_quantile", dict(a, q=r.level() if r.chance(0.98) else 1.5))]
@check("G14")
def g14(run):
    r = rng(run)
    n = 15000 if run.quick() else 70000
    run.sessions([case_prob(r) for _ in range(n)] + r.larger(case_prob, n // 200), opts={"thr": 2})
