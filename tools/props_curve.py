"""Curves, scores, transformations, diagnostics."""
from props import *
from props_geo import Region, mk_points, mk_grid, a_query
from props_down import targets, shape_of

POLICY = ["OneToOne", "MeanSlope", "NearestSlope", "Zero", "Unchanged"]
METRIC = ["Ets", "Ts", "Kss", "Pc", "Bias", "Hss"]
def policy(r): return r.choice(POLICY) if r.chance(0.99) else "Bad"
def metric(r): return r.choice(METRIC) if r.chance(0.99) else "Bad"

def a_curve(r, n=None):
    n = n if n is not None else r.count(r.choice([1, 1, 2, 2, 3, 4, 6, 10]))
    k = r.randint(0, 3)
    f = sorted(r.choice([lambda: float(r.randint(-4, 6)), lambda: f32(r.uniform(-20, 20)), lambda: f32(r.randint(-8, 12) * 0.25), lambda: f32(280 + r.uniform(-15, 15))])() for _ in range(n))
    if k == 0: ref = [f32(v * r.uniform(0.5, 1.5) + r.uniform(-1, 1)) for v in f]
    elif k == 1: ref = sorted(f32(r.uniform(-10, 10)) for _ in range(n))
    elif k == 2: ref = [float(r.randint(-5, 5)) for _ in range(n)]
    else: ref = [1.0] * n
    if r.chance(0.05): r.shuffle(f)
    if r.chance(0.03) and n: f[r.randrange(n)] = NAN
    if r.chance(0.03) and n: ref[r.randrange(n)] = NAN
    return ref, f
def curve_x(r, f):
    v = [x for x in f if x == x] or [0.0]
    c = r.random()
    if c < 0.08: return r.choice([NAN, INF, -INF])
    if c < 0.3: return r.choice(v)
    if c < 0.45: return f32(min(v) - r.choice([0.5, 1, 3, r.uniform(0, 20)]))
    if c < 0.6: return f32(max(v) + r.choice([0.5, 1, 3, r.uniform(0, 20)]))
    if c < 0.8: return f32(r.uniform(min(v), max(v)))
    i = r.randrange(len(v)); j = min(i + 1, len(v) - 1)
    return f32((v[i] + v[j]) / 2)
def case_apply(r):
    ref, f = a_curve(r)
    if r.chance(0.02): ref = ref[:-1]
    if r.chance(0.01): ref = f = []
    b = {"ref": ref, "fcst": f, "below": policy(r), "above": policy(r)}
    d = r.randint(0, 3)
    if d == 0: return [("apply_curve0", dict(b, x=curve_x(r, f)))]
    if d == 1: return [("apply_curve1", dict(b, x=[curve_x(r, f) for _ in range(r.count(r.choice([0, 1, 3, 8, 20])))]))]
    ny, nx = r.shape(4)
    if r.chance(0.03): ny = 0
    if d == 2: return [("apply_curve2", dict(b, x=[[curve_x(r, f) for _ in range(nx)] for _ in range(ny)]))]
    same = r.choice([None, 1, 3, 5])
    R3, F3, X = [], [], []
    for _ in range(ny):
        R3.append([]); F3.append([]); X.append([])
        for _ in range(nx):
            a, c = a_curve(r, same)
            R3[-1].append(a); F3[-1].append(c); X[-1].append(curve_x(r, c))
    if r.chance(0.03) and ny and nx:
        y, x = r.randrange(ny), r.randrange(nx)
        c = r.randint(0, 5)
        if c == 0: R3[y][x] = []
        if c == 1: R3[y][x] = F3[y][x] = []
        if c == 2: F3[y] = F3[y][:-1]
        if c == 3: R3 = R3[:-1]
        if c == 4: X[y] = X[y] + [1.0]
        if c == 5: F3[y][x] = F3[y][x] + [99.0]
    return [("apply_curve3", dict(b, x=X, ref=R3, fcst=F3))]
def case_qm(r):
    n = r.count(r.choice([0, 1, 2, 3, 5, 11, 20, 40]))
    s = r.choice([lambda: float(r.randint(0, 5)), lambda: f32(r.gauss(280, 8)), lambda: f32(max(0, r.gauss(0, 3)))])
    a = [s() for _ in range(n)]; b = [s() for _ in range(n)]
    if r.chance(0.2): a.sort()
    if r.chance(0.2): b.sort()
    if r.chance(0.02): b = b + [1.0]
    q = [] if r.chance(0.4) else [f32(r.choice([0, 1, 0.5, 0.1, 0.9, 0.25, r.random(), r.random()])) for _ in range(r.choice([1, 2, 5, 9]))]
    if r.chance(0.4): q.sort()
    if r.chance(0.03): q.append(r.choice([-0.1, 1.5, NAN]))
    return [("quantile_mapping_curve", {"ref": a, "fcst": b, "quantiles": [f32(v) for v in q]})]
def case_mono(r):
    n = r.count(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 14]))
    k = r.randint(0, 3)
    if k == 0: f = [float(r.randint(0, 6)) for _ in range(n)]
    elif k == 1: f = sorted(f32(r.randint(-20, 40) * 0.25) for _ in range(n))
    elif k == 2:
        f = [float(i) for i in range(n)]
        for _ in range(r.randint(1, 2)):
            if n > 1:
                i, j = r.randrange(n), r.randrange(n); f[i], f[j] = f[j], f[i]
    else:
        x = 0; f = []
        for _ in range(n):
            x += r.choice([1, 1, 1, 2, 0, -1, -3, 0.0625, 0.25]); f.append(f32(x))
    ref = [float(r.randint(-3, 9)) for _ in range(n)]
    if r.chance(0.2):
        for i in range(n):
            if r.chance(0.3): f[i] = NAN
            if r.chance(0.3): ref[i] = NAN
    if r.chance(0.05): f = [NAN] * n
    if r.chance(0.02): ref = ref + [1.0]
    return [("monotonize_curve", {"ref": ref, "fcst": f})]
MONO = "INIT Init\nNEXT Next\nINVARIANT Ok\nCHECK_DEADLOCK FALSE\nCONSTANT N = %d\nCONSTANT V = %d\n"
@check("G15")
def g15(run):
    r = rng(run)
    n = 12000 if run.quick() else 80000
    run.design("MonotonizeDesign", MONO % ((5, 5) if run.quick() else (7, 6)))
    run.sessions([case_apply(r) for _ in range(2 * n)] + [case_qm(r) for _ in range(n // 2)] + [case_mono(r) for _ in range(n)] + r.larger(case_apply, n // 60) + r.larger(case_qm, n // 100) + r.larger(case_mono, n // 100, 4), opts={"thr": 2})

# ---- scores --------------------------------------------------------------------------------------------
def fields(r):
    n = r.count(r.choice([0, 1, 2, 3, 5, 8, 12, 20]))
    s = r.choice([lambda: float(r.randint(0, 4)), lambda: f32(r.uniform(0, 10)), lambda: f32(r.gauss(0, 5))])
    ref = r.vec(n, s, r.choice([0, 0, 0, 0.2, 1]), inf=r.chance(0.3))
    k = r.random()
    if k < 0.4: fc = [f32(v * r.uniform(0.7, 1.4) + r.gauss(0, 0.5)) if math.isfinite(v) else s() for v in ref]
    elif k < 0.5: fc = [f32(v * v) if math.isfinite(v) else s() for v in ref]
    else: fc = r.vec(n, s, 0)
    for i in range(n):
        if r.chance(0.05): fc[i] = NAN
    if r.chance(0.03): fc = [NAN] * n
    if r.chance(0.03): fc = [2.0] * n
    if r.chance(0.02): fc = fc + [1.0]
    return ref, fc
import math
def near(r, v):
    v = [x for x in v if math.isfinite(x)]
    if not v or r.chance(0.3): return f32(r.uniform(0, 8))
    return f32(r.choice(v) + r.choice([0, 0, 0.5, -0.5, r.uniform(-2, 2)]))
def case_score(r):
    c = r.random()
    if c < 0.25:
        k = r.randint(0, 2)
        v = [float(r.choice([0, 0, 1, 2, 5, 30, 400])) if k < 2 else f32(r.random()) for _ in range(4)]
        if r.chance(0.3):
            for i in range(4):
                if r.chance(0.5): v[i] = 0.0
        return [("calc_score4", {"a": v[0], "b": v[1], "c": v[2], "d": v[3], "metric": metric(r)})]
    ref, fc = fields(r)
    if c < 0.5: return [("calc_score3", {"ref": ref, "fcst": fc, "threshold": near(r, ref), "metric": metric(r)})]
    if c < 0.65: return [("calc_score3f", {"ref": ref, "fcst": fc, "threshold": near(r, ref), "fthreshold": near(r, fc), "metric": metric(r)})]
    if c < 0.85: return [("get_optimal_threshold", {"ref": ref, "fcst": fc, "threshold": near(r, ref), "metric": metric(r)})]
    th = sorted(near(r, ref) for _ in range(r.choice([0, 1, 2, 4])))
    return [("metric_optimizer_curve", {"ref": ref, "fcst": fc, "thresholds": th, "metric": metric(r)})]
def case_nscore(r):
    reg = Region(r)
    g = mk_grid(r, reg, meta=False)
    ny, nx = shape_of(g)
    n = r.count(r.choice([0, 1, 3, 8, 15]))
    p = targets(r, reg, g, True, n, meta=False) if r.chance(0.8) else mk_points(r, reg, n, meta=False)
    f = r.vec2(ny, nx, lambda: float(r.randint(0, 6)), r.choice([0, 0, 0.2]))
    ref = r.vec(n, lambda: float(r.randint(0, 6)), r.choice([0, 0, 0.2]))
    if r.chance(0.02): ref = ref + [1.0]
    if r.chance(0.02): f = f[:-1]
    if r.chance(0.02): g = {"lats": [], "lons": [], "type": reg.type}; f = []
    return [("neighbourhood_score", {"grid": g, "points": p, "fcst": f, "ref": ref, "hw": r.choice([1, 1, 2, 3, 10]) if r.chance(0.97) else r.choice([0, -1]),
                                     "metric": metric(r), "threshold": r.choice([0.5, 2.0, 3.0, 4.5, -1.0, 9.0])})]
@check("G16")
def g16(run):
    r = rng(run)
    n = 18000 if run.quick() else 120000
    run.sessions([case_score(r) for _ in range(n)] + [case_nscore(r) for _ in range(n // 4)] + r.larger(case_score, n // 100) + r.larger(case_nscore, n // 200), opts={"thr": 2}, tmo=60)

# ---- transformations -------------------------------------------------------------------------------------
def a_transform(r):
    k = r.choice(["Log", "BoxCox", "BoxCox", "StartedBoxCox", "StartedBoxCox", "Gamma", "Gamma", "Identity"])
    t = {"kind": k}
    if k == "BoxCox": t["p"] = f32(r.choice([0.0, 0.1, 0.5, 1.0, 2.0, r.uniform(0.05, 2), -0.5, -1.0, r.uniform(-1, 1)]))
    if k == "StartedBoxCox":
        t["p"] = f32(r.choice([0.1, 0.5, 1.0, r.uniform(0.05, 2)])) if r.chance(0.96) else r.choice([0.0, -1.0, NAN])
        t["q"] = f32(r.choice([0.5, 1.0, 5.0, r.uniform(0.1, 10)])) if r.chance(0.96) else r.choice([0.0, -1.0, NAN])
    if k == "Gamma":
        t["p"] = f32(r.choice([0.5, 1.0, 2.0, 7.5, r.uniform(0.2, 12)])) if r.chance(0.96) else r.choice([0.0, -1.0, NAN])
        t["q"] = f32(r.choice([0.5, 1.0, 2.0, r.uniform(0.1, 10)])) if r.chance(0.96) else r.choice([0.0, -1.0, NAN])
        t["tol"] = f32(r.choice([0.0, 0.01, 0.5])) if r.chance(0.96) else r.choice([-1.0, NAN])
    return t
def tvalue(r, t, fw):
    if t["kind"] == "Gamma":
        if r.chance(0.04): return r.choice([0.0, -1.0, 1e4, -1e3]) if fw else r.choice([-40.0, 9.0, 50.0])
        if not fw: return f32(r.gauss(0, 1.5))
        p = t["p"] if t["p"] > 0 else 1; q = t["q"] if t["q"] > 0 else 1
        return f32(r.gammavariate(p, q))
    c = r.random()
    if c < 0.1: return r.choice([0.0, 1.0, -1.0, -0.5, f32(1e-6), -20.0, 1000.0])
    if c < 0.15 and "q" in t: return t["q"]
    return f32(r.choice([r.uniform(0, 3), r.uniform(-3, 3), r.uniform(0, 50), r.expovariate(0.3)]))
def case_transform(r):
    t = a_transform(r); fw = r.chance(0.5)
    val = lambda: tvalue(r, t, fw)
    if r.chance(0.35):
        return [("transform_roundtrip", {"t": t, "x": r.vec(r.count(r.choice([1, 3, 8])), (lambda: tvalue(r, t, True)), r.choice([0, 0, 0.2]))})]
    d = r.choice([0, 1, 1, 2, 3])
    miss = r.choice([0, 0, 0.2])
    ny, nx = r.shape(4); ne = r.count(r.randint(1, 3))
    if r.chance(0.05): ny = 0
    if r.chance(0.05): nx = 0
    x = r.vec(1, val, miss)[0] if d == 0 else r.vec(nx * 2, val, miss) if d == 1 else r.vec2(ny, nx, val, miss) if d == 2 else [[r.vec(ne, val, miss) for _ in range(nx)] for _ in range(ny)]
    return [("transform", {"t": t, "dir": "forward" if fw else "backward", "dim": d, "x": x})]
@check("G22")
def g22(run):
    r = rng(run)
    n = 32000 if run.quick() else 200000
    run.sessions([case_transform(r) for _ in range(n)] + r.larger(case_transform, n // 100), opts={"thr": 2})

# ---- diagnostics ---------------------------------------------------------------------------------------
def case_diag(r):
    g = r.choice
    T = lambda: f32(g([r.uniform(230, 310), r.uniform(180, 380), 273.15, 293.15, 300.0]))
    RH = lambda: f32(g([r.random(), r.random(), 1.0, 0.0, 1e-3, 1.05]))
    P = lambda: f32(g([r.uniform(90000, 104000), r.uniform(20000, 105000), 101325.0]))
    Z = lambda: f32(g([0.0, 50.0, 49.99, r.uniform(-200, 3000), r.uniform(0, 100), 2469.0]))
    W = lambda: f32(g([0.0, 1.0, -1.0, r.gauss(0, 8), r.gauss(0, 8), 1e-3, -5.0]))
    def neg(f): return lambda: f() if r.chance(0.999) else -1.0
    nan = lambda f, p=0.05: (lambda: NAN if r.chance(p) else f())
    op, args = g([("dewpoint", {"t": nan(T), "rh": nan(RH)}), ("relative_humidity", {"t": nan(T), "td": nan(lambda: f32(T() - g([0, 0, 5, 30])))}),
                  ("wetbulb", {"t": nan(lambda: T() if r.chance(0.97) else g([30.0, 20.0, 0.0])), "p": nan(P), "rh": nan(RH)}),
                  ("pressure", {"ie": nan(Z), "oe": nan(Z), "p": nan(P), "t": nan(T)}),
                  ("slp", {"ps": nan(neg(P)), "alt": nan(neg(Z), 0.002), "t": nan(neg(T), 0.002), "rh": nan(neg(lambda: min(1.0, RH())), 0.4), "td": nan(neg(T), 0.4)}),
                  ("qnh", {"p": nan(lambda: P() if r.chance(0.98) else 0.0), "alt": nan(Z)}),
                  ("wind_speed", {"x": nan(W), "y": nan(W)}), ("wind_direction", {"x": nan(W), "y": nan(W)})])
    if r.chance(0.35): return [(op + "0", {k: f() for k, f in args.items()})]
    n = r.count(g([0, 1, 2, 5, 17]))
    a = {k: [f() for _ in range(n)] for k, f in args.items()}
    if r.chance(0.05):
        k = g(sorted(a)); a[k] = a[k] + [1.0] if r.chance(0.5) or n == 0 else a[k][:-1]
    if op == "relative_humidity" and "td" in a and n and len(a["td"]) == n and r.chance(0.3): a["td"] = list(a["t"])
    return [(op + "1", a)]
@check("G23")
def g23(run):
    r = rng(run)
    n = 40000 if run.quick() else 250000
    run.sessions([case_diag(r) for _ in range(n)] + r.larger(case_diag, n // 100), opts={"thr": 2})
