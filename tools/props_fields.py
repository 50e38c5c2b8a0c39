from props import *

def case_window(r):
    ny, nx = r.count(r.randint(1, 4)), r.choice([1, 2, 3, 5, 8, 12, 17])
    nx = r.count(nx) * (3 if r.big else 1)
    st = r.choice(STATS)
    before = r.chance(0.5)
    length = r.choice([1, 2, 3, 4, 5, 7, 9, 1001, nx, nx + 1, max(1, nx - 1)])
    if not before and length % 2 == 0 and r.chance(0.9): length += 1
    if r.chance(0.02): length = r.choice([0, -1, -3])
    if r.chance(0.02): ny, nx = r.choice([(0, 0), (2, 0)])
    x = r.vec2(ny, nx)
    if r.chance(0.1) and nx > 2:  # one large value early in the row
        for row in x: row[0] = f32(1e7 * r.random())
    return [("window", {"x": x, "length": length, "stat": st, "before": before, "keep": r.chance(0.4), "edges": r.chance(0.4)})]

@check("G10")
def g10(run):
    r = rng(run)
    n = 24000 if run.quick() else 150000
    run.sessions([case_window(r) for _ in range(n)] + r.larger(case_window, n // 200), opts={"thr": 2})

def case_nb(r):
    ny, nx = r.shape(7)
    hw = r.choice([0, 1, 1, 2, 3, 5, 20])
    st = r.choice(STATS)
    if r.chance(0.02): hw = -1
    if r.chance(0.02): st = r.choice(["Quantile"])
    if r.chance(0.02): ny, nx = r.choice([(0, 0), (2, 0)])
    if r.chance(0.5):
        return [(r.choice(["neighbourhood2", "neighbourhood2", "neighbourhood_bf2"] if st != "Quantile" else ["neighbourhood2"]), {"x": r.vec2(ny, nx), "hw": hw, "stat": st})]
    ne = r.count(r.choice([1, 2, 3, 5])) if r.chance(0.5) else r.choice([1, 2, 3, 5])
    if not r.big or ne > 5: ny, nx = min(ny, 5), min(nx, 5)
    return [(r.choice(["neighbourhood3", "neighbourhood3", "neighbourhood_bf3", "neighbourhood_ens"] if st != "Quantile" else ["neighbourhood3"]), {"x": r.vec3(ny, nx, ne), "hw": hw, "stat": st})]

@check("G08")
def g08(run):
    r = rng(run)
    n = 12000 if run.quick() else 60000
    run.sessions([case_nb(r) for _ in range(n)] + r.larger(case_nb, n // 200), opts={"thr": 2})

def thresholds(r, style):
    k = r.count(r.choice([1, 2, 3, 4, 6]))
    t = sorted(style() for _ in range(k))
    return t

def case_nq(r):
    ny, nx = r.shape(6)
    hw = r.choice([0, 1, 1, 2, 3, 20])
    q = r.level()
    s = r.style()
    if r.chance(0.02): hw = -1
    if r.chance(0.03): q = r.choice([f32(-0.1), f32(1.1), 2.0, -1.0])
    if r.chance(0.02): ny, nx = r.choice([(0, 0), (2, 0)])
    three = r.chance(0.5)
    ne = r.count(r.choice([1, 2, 3, 5]))
    if three: ny, nx = min(ny, 4 if ne > 5 or not r.big else 9), min(nx, 4 if ne > 5 or not r.big else 9)
    x = r.vec3(ny, nx, ne, s) if three else r.vec2(ny, nx, s)
    d = "3" if three else "2"
    k = r.random()
    if k < 0.3:
        op = "neighbourhood_quantile" + d
        if three and r.chance(0.3): op = "neighbourhood_quantile_ens"
        return [(op, {"x": x, "q": q, "hw": hw})]
    if k < 0.4:
        return [("nthresholds" + d, {"x": x, "num": r.choice([1, 2, 3, 4, 5, 10, 100, 0, -1])})]
    t = thresholds(r, s)
    if r.chance(0.03): t = []
    if k < 0.7:
        op = "nqf" + d
        if three and r.chance(0.3): op = "nqf3e"
        return [(op, {"x": x, "q": q, "hw": hw, "t": t})]
    qs = [[r.level() for _ in range(nx)] for _ in range(ny)]
    if r.chance(0.2): qs = [[q]]
    if r.chance(0.03): qs = [[q] * (nx + 1)] * (ny + 1)
    return [("nqf%sv" % d, {"x": x, "q": qs, "hw": hw, "t": t})]

@check("G09")
def g09(run):
    r = rng(run)
    n = 12000 if run.quick() else 60000
    run.sessions([case_nq(r) for _ in range(n)] + r.larger(case_nq, n // 200, 4), opts={"thr": 2})

def case_util(r):
    k = r.randint(0, 13)
    n = r.count(r.choice([0, 1, 1, 2, 3, 4, 5, 7, 10, 20]))
    q = r.level()
    if r.chance(0.05): q = r.choice([f32(-0.1), f32(1.1), 2.0, -1.0, INF])
    if k == 0: return [("calc_statistic", {"x": r.vec(n), "stat": r.choice(STATS + ["Quantile"] if r.chance(0.1) else STATS)})]
    if k == 1: return [("calc_statistic2", {"x": r.vec2(r.count(r.randint(0, 4)), n), "stat": r.choice(STATS)})]
    if k in (2, 3): return [("calc_quantile", {"x": r.vec(n), "q": q})]
    if k == 4: return [("calc_quantile2", {"x": r.vec2(r.count(r.randint(0, 4)), n), "q": q})]
    if k == 5:
        ny, nx = r.shape(3)
        if r.chance(0.05): ny, nx = 0, 0
        qs = [[r.level() for _ in range(nx)] for _ in range(ny)]
        if r.chance(0.05): qs = qs + qs
        if r.chance(0.05): qs = [a + a for a in qs]
        return [("calc_quantile3", {"x": r.vec3(ny, nx, n if r.big else min(n, 5)), "q": qs})]
    if k == 6: return [("num_missing_values", {"x": r.vec2(*r.shape(5))}), ("is_valid", {"x": r.vec(n)})]
    if k in (7, 8):
        v = sorted(r.vec(n, miss=0))
        x = r.choice(v) if v and r.chance(0.4) else r.choice([r.style()(), r.f(-10, 10), NAN])
        if v and r.chance(0.3): x = f32((v[0] + v[-1]) / 2)
        # missing entries in the table are passed over
        for i in range(len(v)):
            if r.chance(0.1): v[i] = NAN
        return [("get_lower_index", {"x": x, "v": v}), ("get_upper_index", {"x": x, "v": v})]
    if k in (9, 10, 11):
        n = min(n, 40 if r.big else 8)
        X = sorted(r.vec(n, miss=0)); Y = r.vec(n, miss=0)
        if r.chance(0.4): Y.sort()
        xs = []
        for _ in range(6):
            c = r.random()
            if X and c < 0.35: xs.append(r.choice(X))
            elif X and c < 0.7: i = r.randint(0, max(0, n - 2)); xs.append(f32(X[i] + r.random() * (X[min(i + 1, n - 1)] - X[i])))
            elif X and c < 0.9: xs.append(f32(r.choice([X[0] - r.random(), X[-1] + r.random() * 5])))
            else: xs.append(r.choice([NAN, INF, 0.0]))
        if r.chance(0.03): Y = Y + [1.0]
        if k == 9: return [("interpolate", {"x": x, "X": X, "Y": Y}) for x in xs[:3]]
        return [("interpolate1", {"x": xs[:r.randint(0, 6)] * (r.big + 1), "X": X, "Y": Y})]
    if k == 12:
        kind = r.choice(["vec2", "vec3", "ivec2", "ivec3"])
        v = float(r.randint(-3, 3)) if kind[0] == "v" else r.randint(-3, 3)
        if kind[0] == "v" and r.chance(0.3): v = NAN
        return [("init", {"k": kind, "y": r.randint(0, 3), "x": r.randint(0, 3), "e": r.randint(0, 3), "v": v}),
                ("get_statistic", {"name": r.choice(["mean", "min", "max", "median", "quantile", "std", "variance", "sum", "count", "randomchoice", "Mean", "", "q"])})]
    return [("calc_even_quantiles", {"x": r.vec(r.choice([n, 2 * n]), miss=0), "num": r.choice([0, 1, 2, 3, 4, 5, 10, 30])})]

@check("G11")
def g11(run):
    r = rng(run)
    n = 40000 if run.quick() else 250000
    run.sessions([case_util(r) for _ in range(n)] + r.larger(case_util, n // 100), opts={"thr": 2})
