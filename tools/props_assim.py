from props import *
from props_geo import Region, mk_points, mk_grid, a_query
from props_down import targets, shape_of, a_struct, KINDS

def region(r): return Region(r, r.choice(["geo", "geo", "cart", "cart", "cart", "small", "date", "pole"]))
def struct_for(r, reg):
    """Mostly scales at which observations in the region matter."""
    if r.chance(0.35): return a_struct(r, reg, kinds=["Barnes", "Barnes", "Soar", "Toar", "Powerlaw", "Cressman", "Linear"])
    k = r.choice(["Barnes", "Barnes", "Barnes", "Soar", "Toar", "Powerlaw", "Cressman"])
    d = {"kind": k, "h": f32(reg.unit() * r.choice([0.5, 1.0, 2.0, 4.0])), "v": f32(r.choice([0, 0, 200.0, 1000.0])), "w": f32(r.choice([0, 0, 0.5, 2.0]))}
    if r.chance(0.5): d["hmax"] = f32(reg.unit() * r.choice([1.0, 1.5, 2.0, 3.0, 6.0]))
    if r.chance(0.1): d = {"kind": "CrossValidation", "s": d, "dist": f32(reg.unit() * r.choice([0.0, 0.5, 1.1]))}
    return d
def setting(r, big=False):
    """Where the background and the observations are."""
    reg = region(r)
    kind = r.choice(["g", "p"])
    if kind == "g": B = mk_grid(r, reg, ny=r.choice([1, 2, 3]), nx=r.choice([1, 2, 3]))
    else: B = mk_points(r, reg, r.choice([1, 2, 3, 5]))
    if r.chance(0.02): B = {"lats": [], "lons": [], "type": reg.type}
    P = targets(r, reg, B, kind == "g", r.choice([0, 1, 1, 2, 3, 4, 5, 6])) if r.chance(0.5) and B["lats"] else mk_points(r, reg, r.choice([0, 1, 2, 3, 4, 5, 6, 8]))
    if r.chance(0.02): P = mk_points(r, Region(r, "cart" if reg.type == "geo" else "geo"), 3)
    return reg, kind, B, P
def on(r, B, kind, one):
    """A field of values (or ensembles) on the background's locations."""
    if kind == "p": x = [one() for _ in B["lats"]]
    else: x = [[one() for _ in row] for row in B["lats"]]
    if r.chance(0.01) and x: x = x[:-1]
    return x
def value(r):
    k = r.choice([0, 1, 2])
    if k == 0: return lambda: float(r.randint(-5, 5))
    if k == 1: return lambda: f32(r.uniform(-10, 10))
    c = r.choice([0.0, 280.0, 1000.0])
    return lambda: f32(c + r.randint(-100, 100) / 10)
def miss(r, one, p):
    return lambda: r.choice([NAN, NAN, NAN, INF]) if r.chance(p) else one()
def vec(r, n, one):
    n = n + (r.choice([-1, 1]) if r.chance(0.008) else 0)
    return [one() for _ in range(max(0, n))]
def ratio(r, zero=0.03): return 0.0 if r.chance(zero) else f32(r.choice([0.1, 0.5, 1.0, 1.0, 3.0, r.uniform(0.05, 5)]))
def max_points(r): return r.choice([0, 0, 0, 1, 2, 3, 5, 100]) if not r.chance(0.01) else -1
def permuted(r, a, keys):
    """The same with the observations in another order."""
    n = len(a["points"]["lats"]); ix = list(range(n)); r.shuffle(ix)
    b = dict(a); b["points"] = {k: ([v[i] for i in ix] if isinstance(v, list) and len(v) == n else v) for k, v in a["points"].items()}
    for k in keys:
        if len(a[k]) == n: b[k] = [a[k][i] for i in ix]
    return b

def case_oi(r):
    reg, kind, B, P = setting(r)
    n = len(P["lats"]); v = value(r); pm = r.choice([0, 0, 0.2])
    full = r.chance(0.4)
    a = {"bgrid": B, "x": on(r, B, kind, miss(r, v, r.choice([0, 0, 0.15]))), "points": P, "obs": vec(r, n, miss(r, v, pm)), "pbg": vec(r, n, miss(r, v, pm)),
         "structure": struct_for(r, reg), "max_points": max_points(r), "extrap": r.chance(0.6)}
    if r.chance(0.15): a["obs"] = [f32(o + 40) for o in a["obs"]]      # all innovations of one sign
    if full:
        a["bvar"] = on(r, B, kind, lambda: f32(r.choice([0.5, 1.0, 2.0, 4.0])) if not r.chance(0.02) else r.choice([0.0, NAN]))
        a["ovar"] = vec(r, n, lambda: ratio(r)); a["pbvar"] = vec(r, n, lambda: f32(r.choice([0.5, 1.0, 2.0])) if not r.chance(0.01) else r.choice([0.0, NAN]))
        op = "oif_" + kind; keys = ["obs", "pbg", "ovar", "pbvar"]
    else:
        a["ratios"] = vec(r, n, lambda: ratio(r)); op = "oi_" + kind; keys = ["obs", "pbg", "ratios"]
    ev = [(op, a)]
    if r.chance(0.2): ev.append((op, permuted(r, a, keys)))
    if r.chance(0.15) and n and len(a["obs"]) == n:   # a little more
        k = r.randint(0, n - 1); b = dict(a); b["obs"] = list(a["obs"]); b["obs"][k] = f32(b["obs"][k] + 1); ev.append((op, b))
    return ev
def case_limits(r):
    """Settings in which selection and limits matter."""
    reg, kind, B, P = setting(r)
    while len(P["lats"]) < 2: reg, kind, B, P = setting(r)
    n = len(P["lats"]); v = value(r)
    base = r.choice([0.0, 0.0, 30.0, -30.0])
    a = {"bgrid": B, "x": on(r, B, kind, v), "points": P, "pbg": vec(r, n, miss(r, v, r.choice([0, 0.15]))),
         "structure": struct_for(r, reg), "max_points": r.choice([0, 1, 1, 2, 2, 3]), "extrap": r.chance(0.3), "ratios": vec(r, n, lambda: ratio(r, 0.01))}
    a["obs"] = vec(r, n, lambda: 0.0); a["obs"] = [NAN if r.chance(0.12) else f32((a["pbg"][min(k, len(a["pbg"]) - 1)] if a["pbg"] else 0.0) + base + r.randint(-5, 5)) for k in range(len(a["obs"]))]
    ev = [("oi_" + kind, a)]
    # an observation that must not matter
    if r.chance(0.5):
        q = dict(P); b = dict(a)
        q = {k: (list(x) if isinstance(x, list) else x) for k, x in P.items()}
        q["lats"].append(reg.lat(r.choice([40.0, 4000.0] if reg.type == "cart" else [60.0]))); q["lons"].append(reg.lon(0))
        for k in ("elevs", "lafs"):
            if k in q: q[k].append(NAN)
        if reg.type == "cart":
            b["points"] = q; b["obs"] = a["obs"] + [500.0]; b["pbg"] = a["pbg"] + [0.0]; b["ratios"] = a["ratios"] + [f32(0.1)]
            ev.append(("oi_" + kind, b))
    if r.chance(0.4): ev.append(("oi_" + kind, permuted(r, a, ["obs", "pbg", "ratios"])))
    return ev
@check("G18")
def g18(run):
    r = rng(run)
    n = 6000 if run.quick() else 30000
    run.sessions([case_oi(r) for _ in range(n)] + r.larger(case_oi, n // 150, 4), opts={"thr": 2})
@check("G19")
def g19(run):
    r = rng(run)
    n = 4000 if run.quick() else 24000
    run.sessions([case_limits(r) for _ in range(n)] + [case_ensi(r, True) for _ in range(n // 4)] + [case_multi(r, True) for _ in range(n // 4)] + r.larger(case_limits, n // 100, 5), opts={"thr": 2})

def ensemble(r, ne, v, pm):
    """An ensemble at one location; now and then a missing member."""
    def one():
        c = v(); s = r.choice([0.0, 0.5, 2.0, 2.0, 2.0])
        return [NAN if r.chance(pm) else f32(c + s * r.randint(-10, 10) / 5) for _ in range(ne)]
    return one
def case_ensi(r, tight=False):
    reg, kind, B, P = setting(r)
    n = len(P["lats"]); v = value(r); ne = r.count(r.choice([0, 1, 2, 3, 3, 4, 5]) if r.chance(0.3) else r.choice([2, 3, 4]))
    a = {"bgrid": B, "x": on(r, B, kind, ensemble(r, ne, v, r.choice([0, 0, 0, 0.05]))), "points": P, "obs": vec(r, n, miss(r, v, r.choice([0, 0, 0.2]))),
         "sigmas": vec(r, n, lambda: f32(r.choice([0.5, 1.0, 2.0, r.uniform(0.3, 4)]))), "pbg": vec(r, n, ensemble(r, ne, v, r.choice([0, 0, 0, 0.05]))),
         "structure": struct_for(r, reg), "max_points": max_points(r) if not tight else r.choice([0, 1, 2]), "extrap": r.chance(0.3 if tight else 0.6)}
    if r.chance(0.01) and a["pbg"]: a["pbg"][0] = a["pbg"][0][:-1]
    if r.chance(0.15): a["obs"] = [f32(o + 40) for o in a["obs"]]
    ev = [("ensi_" + kind, a)]
    if r.chance(0.15): ev.append(("ensi_" + kind, permuted(r, a, ["obs", "pbg", "sigmas"])))
    return ev
@check("G20")
def g20(run):
    r = rng(run)
    n = 4000 if run.quick() else 20000
    run.sessions([case_ensi(r) for _ in range(n)] + r.larger(case_ensi, n // 150, 4), opts={"thr": 2})

def case_multi(r, tight=False):
    reg, kind, B, P = setting(r)
    form = r.choice(["ebe", "ebesc", "utem"])
    n = len(P["lats"]); v = value(r); ne = r.count(r.choice([0, 1, 2, 3, 3, 4, 5]) if r.chance(0.3) else r.choice([2, 3, 4]))
    pm = r.choice([0, 0, 0, 0.04])
    E = lambda: ensemble(r, ne, v, pm)
    a = {"bgrid": B, "bratios": on(r, B, kind, lambda: f32(r.choice([0.5, 1.0, 1.0, 2.0]))), "x": on(r, B, kind, E()), "points": P,
         "pratios": vec(r, n, lambda: ratio(r, 0.01)), "pbg": vec(r, n, E()), "structure": struct_for(r, reg),
         "max_points": max_points(r) if not tight else r.choice([0, 1, 2]), "extrap": r.chance(0.3 if tight else 0.6)}
    keys = ["obs", "pbg", "pratios"]
    if form != "ebesc":
        a["xc"] = on(r, B, kind, E()); a["pbgc"] = vec(r, n, E()); keys.append("pbgc")
    a["obs"] = vec(r, n, miss(r, v, r.choice([0, 0, 0.2]))) if form == "utem" else vec(r, n, ensemble(r, ne, v, r.choice([0, 0, 0.1])))
    for k in ("pbg", "x", "xc", "pbgc"):
        if r.chance(0.005) and a.get(k): a[k] = a[k][:-1]
    op = form + "_" + kind
    ev = [(op, a)]
    if r.chance(0.15): ev.append((op, permuted(r, a, keys)))
    return ev
@check("G21")
def g21(run):
    r = rng(run)
    n = 4000 if run.quick() else 20000
    run.sessions([case_multi(r) for _ in range(n)] + r.larger(case_multi, n // 150, 4), opts={"thr": 2})

# ---- distributions -------------------------------------------------------------------------------------
def case_gamma(r):
    n = r.choice([0, 1, 2, 5])
    lv = [f32(r.choice([0.0, 1.0, 0.5, 0.25, r.random(), r.random(), 1e-4, 0.999])) for _ in range(n)]
    c = r.chance(0.5)
    sh = [f32(r.choice([0.5, 1.0, 2.0, 10.0, r.uniform(0.1, 30)]))] * n if c else [f32(r.choice([0.5, 1.0, 2.0, 10.0, 0.1])) for _ in range(n)]
    sc = [f32(r.choice([0.5, 1.0, 3.0, 100.0]))] * n if c else [f32(r.choice([0.5, 1.0, 3.0, r.uniform(0.01, 200)])) for _ in range(n)]
    if n and r.chance(0.06):
        k = r.choice([lv, sh, sc]); k[r.randint(0, n - 1)] = r.choice([-1.0, 0.0, NAN, 1.5])
    if r.chance(0.03): lv = lv + [0.5]
    return [("gamma_inv", {"levels": lv, "shape": sh, "scale": sc})]
def case_ldc(r):
    reg = region(r)
    B = mk_grid(r, reg, ny=r.choice([1, 2, 3]), nx=r.choice([1, 2, 3]))
    if r.chance(0.02): B = {"lats": [], "lons": [], "type": reg.type}
    P = targets(r, reg, B, True, r.choice([0, 1, 2, 3, 4, 6])) if r.chance(0.5) and B["lats"] else mk_points(r, reg, r.choice([0, 1, 2, 3, 5, 8]))
    if r.chance(0.02): P = mk_points(r, Region(r, "cart" if reg.type == "geo" else "geo"), 3)
    n = len(P["lats"])
    k = r.choice([0, 1, 2])
    def rain():
        if r.chance(0.25): return 0.0
        if k == 0: return float(r.randint(0, 5))
        if k == 1: return f32(r.random() * 10)
        return f32(r.choice([0.005, 0.009999, 0.01, 0.05, 0.09, 0.1, 0.2, 1.0]))
    def o(): return r.choice([NAN, -1.0, INF]) if r.chance(pm) else rain()
    pm = r.choice([0, 0, 0.15])
    nt = r.randint(0, 1)
    T = r.count(r.choice([0, 1, 2, 3]) if r.chance(0.3) else 2)
    mk = lambda: [vec(r, n, o) for _ in range(T)] if nt else vec(r, n, o)
    q = sorted([r.choice([0.0, 0.1, 0.25, 0.5]), r.choice([1.0, 0.9, 0.75, 0.5])])
    if r.chance(0.6): q = [0.0, 1.0]
    if r.chance(0.02): q = r.choice([[0.9, 0.1], [-0.1, 1.0], [0.0, 1.5], [NAN, 1.0]])
    a = {"bgrid": B, "x": on(r, B, "g", lambda: NAN if r.chance(0.05) else rain()), "points": P, "obs": mk(), "pbg": mk(), "nt": nt,
         "structure": struct_for(r, reg), "minq": f32(q[0]), "maxq": f32(q[1]), "min_points": r.choice([0, 1, 1, 2, 3, 5])}
    if r.chance(0.1):    # dry observations
        z = lambda x: [z(y) for y in x] if isinstance(x, list) else 0.0
        a["obs"] = z(a["obs"])
    ev = [("ldc", a)]
    if nt == 0 and r.chance(0.4): ev.append(("ldc", permuted(r, a, ["obs", "pbg"])))
    if nt == 1 and r.chance(0.3):
        ix = list(range(T)); r.shuffle(ix); ev.append(("ldc", dict(a, obs=[a["obs"][i] for i in ix], pbg=[a["pbg"][i] for i in ix])))
    return ev
@check("G24")
def g24(run):
    r = rng(run)
    n = 5000 if run.quick() else 30000
    run.sessions([case_gamma(r) for _ in range(n)] + [case_ldc(r) for _ in range(n)] + r.larger(case_ldc, n // 100), opts={"thr": 2})
