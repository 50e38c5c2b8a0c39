"""The command-line program's parts."""
import math, build
from math import isnan
from props import *
from props_geo import histories
from vf import f32

def cl(s): return list(s)
def crun(run, sessions, variant="plain", label="", **kw):
    return run.sessions([(({"thr": 2}, s) if isinstance(s, list) else s) for s in sessions], cmd=[build.client(variant)], module="ClientTrace", label=label, **kw)

# ---- options ---------------------------------------------------------------------------------------
def word(r):
    return "".join(r.choice("abcxyz_19") for _ in range(r.choice([1, 1, 1, 2, 3])))
def value(r):
    k = r.choice(["int", "dec", "str", "list", "bool", "odd"])
    if k == "int": return str(r.choice([0, 1, -1, 7, 42, -300, 123456]))
    if k == "dec": return r.choice(["0.5", "-1.25", "3.", "10.125", "273.15", "+2.5", "-0"])
    if k == "str": return word(r)
    if k == "list": return ",".join(r.choice([str(r.randint(-9, 99)), "0.5", word(r), "7"]) if r.chance(0.95) else "" for _ in range(r.randint(1, 4))) + r.choice(["", "", ","])
    if k == "bool": return r.choice(["0", "1"])
    return r.choice(["a=b", "=", "==", "1=2", "a,b=c", ".", "-"])
def optstring(r, keys):
    ws = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        k = r.choice(keys)
        ws.append(r.choice([k + "=" + value(r)] * 6 + [k, k + "=", "=" + value(r), "=", word(r), k + "=" + value(r) + "=" + value(r)]))
    s = "".join((" " * r.choice([1, 1, 1, 2, 3])) + w for w in ws)
    return (s[1:] if r.chance(0.8) else s) + r.choice(["", "", " ", "  "])
def case_options(r):
    keys = [word(r) for _ in range(r.choice([1, 2, 3]))]
    ev = [("o_new", {"id": "p", "s": cl(optstring(r, keys))}), ("o_new", {"id": "q", "s": cl(optstring(r, keys))})]
    for _ in range(r.randint(2, 9)):
        i = r.choice(["p", "p", "q"]); k = cl(r.choice(keys))
        op = r.choice(["o_adds", "o_add", "o_addi", "o_addf", "o_clear", "o_str", "o_has", "o_check", "o_eq", "o_copy", "o_get", "o_get", "o_get", "o_gets", "o_gets", "o_gets", "o_req", "o_reqs", "o_check", "o_str", "o_eq"])
        if op == "o_clear" and r.chance(0.7): op = "o_get"
        if op == "o_adds": ev.append((op, {"id": i, "s": cl(optstring(r, keys))}))
        elif op == "o_add": ev.append((op, {"id": i, "k": r.choice([k, k, k, []]), "v": cl(r.choice([value(r), value(r), ""]))}))
        elif op == "o_addi": n = r.choice([0, 1, -5, 1000000, 123456789]); ev.append((op, {"id": i, "k": k, "v": n, "s": cl(str(n))}))
        elif op == "o_addf": x = r.choice([0.5, -2.25, 1000.0, 3.0]); ev.append((op, {"id": i, "k": k, "v": x, "s": cl("%g" % x)}))
        elif op == "o_eq": ev.append((op, {"a": r.choice(["p", "q"]), "b": r.choice(["p", "q", "q"])}))
        elif op == "o_copy": ev.append((op, {"id": i, "to": "q" if i == "p" else "p"}))
        elif op in ("o_clear", "o_str", "o_check"): ev.append((op, {"id": i}))
        elif op == "o_has": ev.append((op, {"id": i, "k": k}))
        elif op in ("o_get", "o_req"): ev.append((op, {"id": i, "k": k, "t": r.choice(["str", "int", "float", "bool"])}))
        else: ev.append((op, {"id": i, "k": k, "t": r.choice(["str", "int", "float"])}))
        if op in ("o_req", "o_reqs") and r.chance(0.5): ev[-1] = (op.replace("req", "get"), ev[-1][1])
    # o_copy goes through the text, which must be readable: no odd keys
    return ev
def case_split(r):
    a = r.choice(["ab ", "ab, ", "a=, "])
    s = [r.choice(a) for _ in range(r.randint(0, 8))]
    if r.chance(0.2): return [("haschar", {"s": s, "c": r.choice(a)})]
    d = {"s": s}
    if r.chance(0.6): d["d"] = [c for c in r.choice([" ", ",", ", ", "=", "b"])]
    return [("split", d)]
@check("C09")
def c09(run):
    r = rng(run)
    n = 8000 if run.quick() else 60000
    crun(run, [case_options(r) for _ in range(n)], label="s")
    crun(run, [case_split(r) for _ in range(n // 2)], label="split")

# ---- utilities -------------------------------------------------------------------------------------
def cmiss(r, v, p):
    """Some values replaced by a missing one."""
    return [r.choice([-999.0, NAN, INF, -INF, -999.0]) if r.chance(p) else x for x in v]
def case_util(r):
    k = r.choice(["date", "time", "unix", "calcdate", "ustat", "ustat", "ustat", "udist", "udist", "ulogit", "uinterp", "uinterp", "uinverse", "uregress", "uindex", "uvalid"])
    import datetime
    def date(): return datetime.date(1970, 1, 1) + datetime.timedelta(days=r.choice([r.randint(0, 60000), 0, 59, 60, 365, 11016, 11017, 11382, r.randint(0, 400)]))
    def num(d): return d.year * 10000 + d.month * 100 + d.day
    if k in ("date", "time"):
        days = (date() - datetime.date(1970, 1, 1)).days; secs = r.choice([0, 1, 59, 60, 3599, 3600, 86399, r.randint(0, 86399)])
        return [(k, {"t": float(days * 86400 + secs), "days": days, "secs": secs})]
    if k == "unix":
        n = num(date())
        if r.chance(0.1): n = r.choice([20150230, 20151301, 20150100, 20140229, 19000229, 21000229])
        s = r.randint(0, 86399)
        return [(k, {"d": n, "t": s // 3600 * 10000 + s // 60 % 60 * 100 + s % 60})]
    if k == "calcdate": return [(k, {"d": num(date()), "h": f32(r.choice([0, 23, 24, 25, -1, -24, -25, 48, 0.5, r.randint(-5000, 5000), r.uniform(-500, 500)]))})]
    if k == "ustat":
        st = r.choice(["mean", "min", "max", "median", "std", "sum", "quantile", "quantile", "count", "other"])
        s = r.style()
        d = {"stat": st, "x": cmiss(r, [s() for _ in range(r.choice([0, 1, 2, 3, 5, 11]))], r.choice([0, 0, 0.3, 1]))}
        if st == "quantile": d["q"] = f32(r.choice([0, 1, 0.5, 0.1, 0.7, 0.9, r.random()]))
        return [(k, d)]
    if k == "udist":
        a = [f32(r.choice([r.uniform(-90, 90), 0, 90, -90, 60])), f32(r.choice([r.uniform(-180, 180), r.uniform(-360, 360), 0, 180, -180])), 0, 0]
        m = r.choice(["far", "near", "tiny", "same"])
        if m == "far": a[2], a[3] = f32(r.choice([r.uniform(-90, 90), -a[0]])), f32(r.uniform(-360, 360))
        else:
            s = {"near": 0.5, "tiny": 1e-5, "same": 0}[m]
            a[2] = f32(max(-90, min(90, a[0] + r.uniform(-s, s)))); a[3] = f32(max(-360, min(360, a[1] + r.choice([0, 1]) * r.uniform(-s, s))))
        if r.chance(0.1): a[r.randint(0, 3)] = r.choice([-999.0, NAN, 91.0, 361.0, -360.5])
        return [(k, {"lat1": a[0], "lon1": a[1], "lat2": a[2], "lon2": a[3]})]
    if k == "ulogit": return [(k, {"p": f32(r.choice([0, 1, 0.5, 1e-3, 0.999, r.random(), -0.1, 1.5, -999, NAN]))})]
    if k == "uinterp":
        n = r.randint(1, 6); X = sorted(set(f32(r.randint(-10, 10) / 2) for _ in range(n))); s = r.style()
        return [(k, {"x": r.choice(X + [f32(r.uniform(-8, 8)), X[0], X[-1]]), "X": X, "Y": [s() for _ in X]})]
    if k == "uinverse":
        n = r.choice([0, 1, 2, 3, 4]); A = [[f32(r.randint(-5, 5) + (n + 3 if i == j and r.chance(0.7) else 0)) for j in range(n)] for i in range(n)]
        if n and r.chance(0.1): A[r.randint(0, n - 1)][r.randint(0, n - 1)] = r.choice([-999.0, NAN])
        return [(k, {"m": A})]
    if k == "uregress":
        T = r.choice([1, 2, 3, 5, 8]); c = r.chance(0.5); n = r.randint(0 if c else 1, 2)
        if n + c > T: n = 1 - c
        x = [[f32(i * (1 + j) + r.uniform(-0.4, 0.4) * (1 + 3 * j)) for i in range(T)] for j in range(n)]
        if x and r.chance(0.05): x[0] = x[0][:-1]
        return [(k, {"y": [f32(r.uniform(-5, 5)) for _ in range(T)], "x": x, "const": c})]
    if k == "uindex":
        v = sorted(f32(r.randint(-4, 4)) for _ in range(r.randint(0, 6))); return [(k, {"x": f32(r.choice([r.randint(-5, 5), r.uniform(-5, 5)])), "v": cmiss(r, v, 0.1)})]
    return [(k, {"x": cmiss(r, [0.0, 1.0, f32(-998.9), f32(-1e30)], 0.3)})]
@check("C10")
def c10(run):
    r = rng(run)
    crun(run, [[e for _ in range(6) for e in case_util(r)] for _ in range(4000 if run.quick() else 30000)])

# ---- command lines -----------------------------------------------------------------------------------
def nc_grid(path, names, lats=(50.0, 51.0), lons=(10.0, 11.0), times=(0.0,), ens=None, alt=None, data=None, atts=None, classic=False):
    """A plain file: variables over (time, ensemble_member, y, x)."""
    ny, nx, nt = len(lats), len(lons), len(times)
    dims = [{"n": "time", "size": nt}, {"n": "lat", "size": ny}, {"n": "lon", "size": nx}]
    vd = ["time", "lat", "lon"]
    if ens: dims.append({"n": "ensemble_member", "size": ens}); vd = ["time", "ensemble_member", "lat", "lon"]
    vs = [{"n": "lat", "dims": ["lat"], "data": list(lats)}, {"n": "lon", "dims": ["lon"], "data": list(lons)}, {"n": "time", "type": "d", "dims": ["time"], "data": list(times)},
          {"n": "forecast_reference_time", "type": "d", "dims": [], "data": [0.0]}]
    if alt is not None: vs.append({"n": "altitude", "dims": ["lat", "lon"], "data": alt})
    size = nt * (ens or 1) * ny * nx
    for n in names:
        vs.append({"n": n, "dims": vd, "data": (data or {}).get(n, [0.0] * size), "atts": (atts or {}).get(n, {})})
    return ("mk_nc", {"path": path, "classic": classic, "dims": dims, "vars": vs})
SETUPFILES = [nc_grid("a.nc", ["T", "P", "U"], classic=True, atts={"T": {"units": "K", "standard_name": "air_temperature"}, "P": {"units": "mm"}}),
              nc_grid("b.nc", ["T", "Q"], classic=True, atts={"T": {"units": "C"}, "Q": {"standard_name": "q"}}),
              nc_grid("c.nc", ["U"], classic=True),
              ("w_text", {"path": "p.txt", "s": cl("time a b\n0 1 2\n1 3 4\n")}), ("w_text", {"path": "q.txt", "s": cl("a\n5\n")})]
VNAMES = ["T", "P", "Q", "U", "N", "T"]
def words_opt(r):
    return r.choice(["min=%d" % r.randint(-5, 5), "max=%s" % r.choice(["2", "7.5", "-1"]), "units=%s" % r.choice(["m", "K"]), "write=0", "write=1", "constantElevGradient=%s" % r.choice(["1", "0.5", "-2"]), "x", "x=y", "-va", "-q=1", "standardName=s"])
def file_words(r):
    k = r.choice(["two", "two", "two", "two", "one", "one", "opts", "list", "bad"])
    if k == "two": return ["a.nc", r.choice(["b.nc", "b.nc", "a.nc", "c.nc"])]
    if k == "one": return [r.choice(["a.nc", "b.nc"])]
    if k == "opts": return [r.choice(["a.nc", "b.nc"])] + [r.choice(["latVar=lat", "x=1", "timeDim=time"]) for _ in range(r.randint(0, 2))] + r.choice([[], [r.choice(["a.nc", "b.nc"])]]) + [r.choice(["latVar=lat", "x=1"]) for _ in range(r.randint(0, 2))]
    if k == "list": return [r.choice(["a.nc,c.nc", "a.nc,b.nc", "a.nc"]), r.choice(["b.nc,c.nc", "b.nc", "a.nc,b.nc", "b.nc,", "c.nc,b.nc"])]
    return [r.choice(["none.nc", "a.nc", "p.txt"]), r.choice(["none.nc", "p.txt", "b.nc"])]
def p_words(r):
    return ["-p", r.choice(["p.txt", "p.txt", "p.txt", "q.txt", "no.txt"])] + r.choice([["type=text"]] * 6 + [["type=text", "x=1"], [], ["x=1"], ["x=2", "type=text"], ["type=other"]])
def scheme_words(r):
    o = []
    if r.chance(0.4): o += ["-d"] + r.choice([["gradient"], ["gradient", "constantElevGradient=%s" % r.choice(["1", "0.5"])], ["bypass"], ["nearestNeighbour"], ["smart"], ["bilinear"], ["nothing"] if r.chance(0.3) else ["pressure"], ["upscale"]])
    else: o += ["-c"] + [r.choice(["sort", "accumulate", "deaccumulate", "sort", "accumulate", "nothing" if r.chance(0.2) else "sort"])]
    o += [words_opt(r) for _ in range(r.choice([0, 0, 1, 2]))]
    if r.chance(0.35): o += p_words(r)
    if r.chance(0.03): o += p_words(r)
    return o
def block_words(r):
    h = [["-v", r.choice(VNAMES)] + [words_opt(r) for _ in range(r.choice([0, 0, 1, 2]))]]
    if r.chance(0.4): h.append(["-vi", r.choice(VNAMES + ["al"])] + [words_opt(r) for _ in range(r.choice([0, 0, 1]))])
    if r.chance(0.5): h.reverse()
    o = [w for g in h for w in g]
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])): o += scheme_words(r)
    return o
def case_setup(r):
    w = file_words(r)
    for _ in range(r.choice([0, 0, 0, 1, 2])): w += ["-va", r.choice(["al", "T", "N"])] + r.choice([["name=T"], ["name=P", "min=3"], ["units=z", "name=U"], ["name=zz"], ["x=1"] if r.chance(0.2) else ["name=T", "max=1"]])
    for _ in range(r.choice([1, 1, 2, 2, 3])): w += block_words(r)
    if r.chance(0.15):                         # spoil it
        i = r.randint(1, len(w)) - 1; m = r.choice(["drop", "swap", "ins", "dup"])
        if m == "drop": w = w[:i] + w[i + 1:]
        elif m == "swap" and i: w[i - 1], w[i] = w[i], w[i - 1]
        elif m == "ins": w.insert(i, r.choice(["-v", "-vi", "-d", "-c", "-p", "-va", "x"]))
        else: w.insert(i, w[i])
    return SETUPFILES + [("setup", {"args": [cl(x) for x in w]})]
def token_lines(r, n):
    """All lines of n tokens after the files; tokens are words with what usually follows them."""
    import itertools
    toks = [["-v", "T"], ["-v", "P", "min=1"], ["-vi", "P"], ["-vi", "U", "units=k"], ["-d", "gradient", "constantElevGradient=2"], ["-d", "bypass"], ["-c", "sort", "x=1"], ["-c", "accumulate"], ["-p", "p.txt", "type=text"], ["y=2"], ["-d"], ["-va", "al", "name=T"]]
    for t in itertools.product(range(len(toks)), repeat=n):
        if r.chance(0.5) or n < 4: yield [w for i in t for w in toks[i]]
@check("C01")
def c01(run):
    r = rng(run)
    lines = [l for n in (1, 2, 3) for l in token_lines(r, n)] + ([] if run.quick() else [l for l in token_lines(r, 4)])
    r.shuffle(lines)
    ses = [SETUPFILES + [("setup", {"args": [cl(x) for x in ["a.nc"] + (["b.nc"] if r.chance(0.5) else []) + l]})] for l in lines]
    crun(run, ses, label="all")
    crun(run, [case_setup(r) for _ in range(4000 if run.quick() else 40000)], label="rand")

# ---- files as stores ---------------------------------------------------------------------------------
def mfield(r, ny, nx, ne, miss=0.1):
    s = r.style()
    return [[[r.choice([-999.0, NAN]) if r.chance(miss) else s() for _ in range(ne)] for _ in range(nx)] for _ in range(ny)]
def mgrid(r, ny, nx, lo, hi):
    return [[f32(r.uniform(lo, hi)) for _ in range(nx)] for _ in range(ny)]
def memfile(r, fid, names, ny=None, nx=None, ne=None, nt=None, **kw):
    ny = ny or r.randint(1, 3); nx = nx or r.randint(1, 3); ne = ne or r.choice([1, 1, 2, 3]); nt = nt or r.randint(1, 3)
    d = {"f": fid, "lats": mgrid(r, ny, nx, -60, 60), "lons": mgrid(r, ny, nx, *r.choice([(-180, 180), (0, 360), (-10, 10)])), "ens": ne, "times": [float(i * 3600) for i in range(nt)]}
    if r.chance(0.5): d["elevs"] = mgrid(r, ny, nx, 0, 1000)
    if r.chance(0.5): d["lafs"] = mgrid(r, ny, nx, 0, 1)
    if r.chance(0.3): d["ref"] = 1.5e9
    d["vars"] = {n: [mfield(r, ny, nx, ne) for _ in range(nt)] for n in names}
    d.update(kw)
    return ("f_new", d), (ny, nx, ne, nt)
def case_store(r):
    ev = []; dims = {}; new = {}
    for f in ["a", "b"][:r.choice([1, 1, 2])]:
        if r.chance(0.15):
            o = {"nLat": r.randint(1, 3), "nLon": r.randint(1, 3), "nEns": r.randint(1, 2), "nTime": r.randint(1, 3)}
            ev.append(("f_new", {"f": f, "fake": o})); dims[f] = (o["nLat"], o["nLon"], o["nEns"], o["nTime"]); new[f] = None
        else:
            same = dims.get("a") if r.chance(0.6) else None
            e, dims[f] = memfile(r, f, [n for n in ["T", "P", "U"] if r.chance(0.6)], *(same or ())); new[f] = e[1]; ev.append(e)
        if r.chance(0.15): n = r.randint(1, 3); ev.append(("f_settimes", {"f": f, "x": [float(r.randint(0, 10)) for _ in range(n)]})); dims[f] = dims[f][:3] + (n,)
        if r.chance(0.1) and new[f] is None: n = r.randint(1, 3); ev.append(("f_setens", {"f": f, "n": n})); dims[f] = dims[f][:2] + (n,) + dims[f][3:]
    # fields under a memory file exist only for its own times
    for f in dims:
        if new[f]:
            nt = len(new[f]["times"])
            for k in new[f]["vars"]:
                while len(new[f]["vars"][k]) < dims[f][3]: new[f]["vars"][k].append(mfield(r, *dims[f][:3]))
    for _ in range(r.randint(3, 14)):
        f = r.choice(list(dims)); ny, nx, ne, nt = dims[f]; v = r.choice(["T", "P", "U", "N", "N", "al", "al2"]); t = r.randint(0, nt - 1)
        op = r.choice(["f_get"] * 6 + ["f_poke"] * 3 + ["f_add"] * 3 + ["f_init", "f_has", "f_clear", "f_cache", "f_tag", "f_tag", "f_alias", "f_setlats", "f_setlons", "f_setelevs", "f_setlafs", "f_grid", "f_dims", "f_same", "f_setref", "f_empty"])
        if op == "f_clear" and r.chance(0.5): op = "f_get"
        d = {"f": f}
        if op == "f_get":
            d.update(v=v, t=t if r.chance(0.985) else nt + r.randint(0, 1), byvar=r.chance(0.4)); d["skip"] = d["byvar"] and r.chance(0.3)
        elif op == "f_poke": d.update(v=v, t=t, y=r.randint(0, ny - 1), x=r.randint(0, nx - 1), e=r.randint(0, ne - 1), val=f32(r.uniform(-9, 9)))
        elif op == "f_add": d.update(v=v, t=t, field=mfield(r, ny, nx, ne))
        elif op in ("f_init", "f_has"): d.update(v=v)
        elif op == "f_alias": d.update(a=r.choice(["al", "al2", "T"]), v=r.choice(["T", "P", "N"]))
        elif op in ("f_setlats", "f_setlons") and new[f]:
            a, b = (-60, 60) if op == "f_setlats" else r.choice([(-180, 180), (-360, 360)])
            k = "lats" if op == "f_setlats" else "lons"
            m = r.choice(["same", "same", "one", "new", "dims", "bad"])
            g = [list(x) for x in new[f][k]]
            if m == "one": g[r.randint(0, ny - 1)][r.randint(0, nx - 1)] = f32(r.uniform(a, b))
            elif m == "new": g = mgrid(r, ny, nx, a, b)
            elif m == "dims": g = mgrid(r, ny + r.randint(0, 1), nx + 1, a, b)
            elif m == "bad" and r.chance(0.2): g[0][0] = r.choice([-999.0, 91.0 if k == "lats" else 360.5, -90.5 if k == "lats" else -361.0])
            d["x"] = g
            if m != "dims": new[f][k + "2"] = g
        elif op in ("f_setlats", "f_setlons"): op = "f_tag"
        elif op in ("f_setelevs", "f_setlafs"): d["x"] = mgrid(r, ny + r.choice([0, 0, 0, 1]), nx + r.choice([0, 0, 0, 1]), 0, 100)
        elif op == "f_same": d["g"] = r.choice(list(dims))
        elif op == "f_setref": d["t"] = float(r.randint(0, 10 ** 9))
        elif op == "f_empty" and r.chance(0.5): d["fill"] = f32(r.uniform(-5, 5))
        ev.append((op, d))
        if op in ("f_setlats", "f_setlons"): ev.append(("f_tag", {"f": f})); ev.append(("f_grid", {"f": f}))
    for f in new:
        if new[f]: new[f].pop("lats2", 0); new[f].pop("lons2", 0)
    return ev
def store_history(h):
    ev = [("f_new", {"f": "a", "lats": [[60.0]], "lons": [[10.0]], "times": [0, 1], "vars": {"T": [[[[10.0]]], [[[11.0]]]]}}), ("f_alias", {"f": "a", "a": "al", "v": "N"})]
    for k, (op, v, t) in enumerate(h):
        d = {"f": "a", "v": v}; t = int(t)
        if op in ("get", "skip"): ev.append(("f_get", dict(d, t=t, byvar=op == "skip", skip=op == "skip")))
        elif op == "poke": ev.append(("f_poke", dict(d, t=t, y=0, x=0, e=0, val=100.0 * (k + 1))))
        elif op == "add": ev.append(("f_add", dict(d, t=t, field=[[[100.0 * (k + 1)]]])))
        elif op == "clear": ev.append(("f_clear", {"f": "a"}))
        else: ev.append(("f_" + op, d))
    return ev + [("f_has", {"f": "a", "v": "N"})] + [("f_get", {"f": "a", "v": v, "t": t, "byvar": False, "skip": False}) for v in "TN" for t in (0, 1)]
@check("C03")
def c03(run):
    r = rng(run)
    crun(run, [case_store(r) for _ in range(6000 if run.quick() else 60000)], label="histories with any data")
    # every short history, as the generator specification gives them
    hs = histories(run, "StoreGen", "", 3, invs="Right HasRight Out")
    if not run.quick(): hs += r.sample(histories(run, "StoreGen", "", 4, invs="Right HasRight Out"), 100000)
    hs += histories(run, "StoreGen", "", 12, invs="Right HasRight Out", simulate=1500 if run.quick() else 20000, seed=run.seed)
    crun(run, [store_history(h) for h in hs], label="histories of the generator")

# ---- parameter files -----------------------------------------------------------------------------------
def places(r, n):
    """Locations far enough apart that the nearest is clear or a tie."""
    k = r.choice(["grid", "wide", "pole", "date"])
    out = []
    while len(out) < n:
        if k == "grid": p = [float(r.randint(-4, 4)), float(r.randint(-4, 4))]
        elif k == "wide": p = [r.randint(-340, 340) / 4.0, r.randint(-720, 720) / 4.0]
        elif k == "pole": p = [r.choice([1, 1, -1]) * r.randint(328, 358) / 4.0, r.randint(-720, 720) / 4.0]
        else: p = [float(r.randint(-20, 20)), float(r.choice([1, -1]) * r.randint(150, 180))]
        if all(abs(p[0] - q[0]) + abs(p[1] - q[1]) > 0.1 for q in out): out.append(p)
    return [p + [f32(r.choice([0.0, 10.0, 250.5, -999.0]))] for p in out]
def near_place(r, pl):
    p = r.choice(pl)
    m = r.choice(["at", "at", "close", "any", "any"])
    if m == "at": return [p[0], p[1], r.choice([p[2], 33.0])]
    if m == "close": return [f32(max(-90, min(90, p[0] + r.uniform(-0.3, 0.3)))), f32(p[1] + r.choice([0, 360 if p[1] < 0 else 0]) + r.uniform(-0.3, 0.3) if abs(p[1]) < 179 else p[1]), 0.0]
    return [f32(r.choice([r.uniform(-5, 5), r.uniform(-90, 90)])), f32(r.choice([r.uniform(-5, 5), r.uniform(-180, 180)])), 0.0]
def pars(r, n):
    return [f32(r.choice([r.randint(-5, 5), r.uniform(-10, 10), r.uniform(0, 2000), -999.0 if r.chance(0.2) else 1.5])) for _ in range(n)]
def lookups(r, p, pl, nt, n):
    ev = []
    for _ in range(n):
        t = r.choice([r.randint(0, nt - 1), r.randint(0, nt + 2)] if r.chance(0.15) else [r.randint(0, nt - 1)])
        d = {"p": p, "t": t}
        if pl: d["loc"] = near_place(r, pl); d["near"] = r.chance(0.8)
        elif r.chance(0.5): d["loc"] = [1.0, 2.0, 3.0]; d["near"] = r.chance(0.7)
        ev.append(("p_get", d))
    if r.chance(0.5): ev.append(("p_info", {"p": p}))
    return ev
def case_par_new(r):
    ty = r.choice(["text", "text", "netcdf"]); path = "par.x"
    nl = r.choice([0, 1, 2, 2, 3, 5]); nt = r.choice([1, 1, 2, 3, 4]); n = r.choice([1, 1, 2, 3])
    if nl == 0 and ty == "netcdf" and r.chance(0.8): nl = 2
    pl = places(r, nl)
    opt = {"file": path}
    if r.chance(0.4): opt["cycle"] = r.choice([1, 1, 0])
    if ty == "netcdf" and r.chance(0.2): opt["varName"] = "cf"
    ev = [("p_new", {"p": "p", "type": ty, "new": True, "opt": opt})]
    sets = []; hole = r.choice([0, 0, 0.2, 0.5])
    for t in range(nt):
        for l in (pl or [None]):
            if not r.chance(hole): sets.append((l, t))
    if r.chance(0.7): r.shuffle(sets)
    if sets and r.chance(0.3): sets += [r.choice(sets)]
    cut = r.randint(0, len(sets)) if r.chance(0.3) else len(sets)
    for k, part in enumerate((sets[:cut], sets[cut:])):
        if k and not part: continue
        for l, t in part:
            d = {"p": "p", "t": t, "v": pars(r, n if r.chance(0.98) else n + 1)}
            if l: d["loc"] = l[:2] + [r.choice([l[2], l[2], 5.0])]
            ev.append(("p_set", d))
        if part: ev.append(("p_tree", {"p": "p"}))
        if part: ev += lookups(r, "p", pl, nt, r.randint(1, 4))
    if r.chance(0.02): ev.append(("p_set", {"p": "p", "t": -1, "v": [1.0]}))
    if r.chance(0.02): ev.append(("p_get", {"p": "p", "t": -1}))
    if r.chance(0.75):
        ev += [("p_write", {"p": "p"}), ("p_del", {"p": "p"}), ("p_new", {"p": "q", "type": ty, "new": False, "opt": dict(opt, cycle=r.choice([0, 1]))})] + lookups(r, "q", pl, nt, r.randint(2, 6))
        if r.chance(0.4): ev.append(("p_info", {"p": "q"}))
    return ev
def num6(r, x):
    return r.choice(["%g", "%g", "%.2f", "%.1f"]) % x
def case_par_text(r):
    nl = r.choice([0, 1, 2, 3]); nt = r.choice([1, 1, 2, 3, 5]); n = r.choice([0, 1, 1, 2, 3]); pl = places(r, nl)
    if r.chance(0.85): pl = [p[:2] + [10.0] for p in pl]
    cols = (["time"] if nt > 1 or r.chance(0.5) else []) + (["lat", "lon", "elev"] if nl else []) + ["par%d" % i for i in range(n)]
    if not cols: cols = ["a"]
    if r.chance(0.4): r.shuffle(cols)
    if r.chance(0.06): cols = [c for c in cols if c != r.choice(["lat", "lon", "elev", "time"])] or ["a"]
    rows = []
    for t in range(nt):
        for l in (pl or [None]):
            if r.chance(0.15): continue
            w = []
            for c in cols:
                if c == "time": w.append(str(t))
                elif c in ("lat", "lon", "elev"): w.append("%g" % l[["lat", "lon", "elev"].index(c)] if l else "3")
                else: w.append(num6(r, pars(r, 1)[0]))
            if r.chance(0.02): w = w[:-1]
            if r.chance(0.01): w[r.randint(0, len(w) - 1)] = "abc"
            rows.append(w)
    if r.chance(0.5): r.shuffle(rows)
    lines = [(" " * r.choice([1, 1, 2])).join(w) if w else "" for w in rows]
    lines = [" ".join(cols)] + lines
    for _ in range(r.choice([0, 0, 1, 2])): lines.insert(r.randint(0, len(lines)), "#" + r.choice(["", " time a", "1 2"]))
    if r.chance(0.02): lines[r.randint(0, len(lines) - 1)] += " "
    if r.chance(0.01): lines.insert(r.randint(0, len(lines)), "")
    if r.chance(0.02): lines = lines[:1]
    if r.chance(0.01) and "time" in cols and rows: lines.append(" ".join("-1" if c == "time" else "1" for c in cols))
    s = "\n".join(lines) + r.choice(["", "\n", "\n"])
    opt = {"file": "p.txt"}
    if r.chance(0.4): opt["cycle"] = 1
    ev = [("w_text", {"path": "p.txt", "s": cl(s)}), ("p_new", {"p": "p", "type": "text", "new": False, "opt": opt})] + lookups(r, "p", pl, nt, r.randint(2, 5))
    if r.chance(0.3): ev += [("p_write", {"p": "p"}), ("p_del", {"p": "p"}), ("p_new", {"p": "q", "type": "text", "new": False, "opt": opt})] + lookups(r, "q", pl, nt, r.randint(1, 4))
    return ev
def case_par_nc(r):
    ny, nx, nt, nc = r.choice([1, 2, 3]), r.choice([1, 2, 3]), r.choice([0, 0, 1, 2, 3]), r.choice([1, 2, 3])
    dy, dx = r.choice([("lat", "lon"), ("latitude", "longitude"), ("y", "x"), ("lat", "x")])
    opt = {"file": "p.nc"}
    dc = "coeff"; vn = "coefficient"
    if r.chance(0.3): dc = opt["dimName"] = "cc"
    if r.chance(0.3): vn = opt["varName"] = "cf"
    if r.chance(0.15): dy, dx = "jj", "ii"; opt["yDim"] = dy; opt["xDim"] = dx
    dims = [{"n": dy, "size": ny}, {"n": dx, "size": nx}, {"n": dc, "size": nc}]
    if nt: dims.append({"n": "time", "size": nt})
    one = r.chance(0.1)
    if one: dims.append({"n": "other", "size": 1})
    r.shuffle(dims)
    size = {d["n"]: d["size"] for d in dims}
    y0, x0 = r.choice([(0, 0), (60, 10), (-30, 170), (84, -170)])
    la = [y0 + i * 1.5 for i in range(ny)]; lo = [x0 + j * 1.25 for j in range(nx)]
    oned = r.chance(0.4)
    names = r.choice([("lat", "lon"), ("latitude", "longitude")])
    if oned: vs = [{"n": names[0], "dims": [dy], "data": la}, {"n": names[1], "dims": [dx], "data": lo}]
    else:
        vs = []
        for k, n in enumerate(names + (("altitude",) if r.chance(0.5) else ())):
            ds = [dy, dx] if r.chance(0.6) else [dx, dy]
            f = [[(la[i] + 0.125 * j, lo[j] + 0.25 * i, 10.0 * i + j)[k] for j in range(nx)] for i in range(ny)]
            vs.append({"n": n, "dims": ds, "data": [x for row in f for x in row] if ds == [dy, dx] else [f[i][j] for j in range(nx) for i in range(ny)]})
    if nt and r.chance(0.9): vs.append({"n": "time", "type": "d", "dims": ["time"], "data": [float(3600 * i) for i in range(nt)]})
    ds = [dy, dx, dc] + (["time"] if nt and r.chance(0.85) else []) + (["other"] if one else [])
    if r.chance(0.03): ds.remove(r.choice(ds))
    r.shuffle(ds)
    n = 1
    for d in ds: n *= size[d]
    fill = r.choice([-999.0, -1.0, None])
    atts = {} if fill is None else {"_FillValue": fill}
    vs.append({"n": vn, "dims": ds, "atts": atts, "data": [x if r.chance(0.9) else fill if fill is not None else 1.0 for x in pars(r, n)]})
    if r.chance(0.03): vs = [v for v in vs if v["n"] != names[r.randint(0, 1)]]
    if r.chance(0.02): opt["dimName"] = "nodim"
    if r.chance(0.4): opt["cycle"] = 1
    r.shuffle(vs)
    pl = [[la[i] + (0 if oned else 0.125 * j), lo[j] + (0 if oned else 0.25 * i), 0.0] for i in range(ny) for j in range(nx)]
    return [("mk_nc", {"path": "p.nc", "dims": dims, "vars": vs, "classic": r.chance(0.3)}), ("p_new", {"p": "p", "type": "netcdf", "new": False, "opt": opt})] + lookups(r, "p", pl, max(nt, 1), r.randint(2, 6))
@check("C05")
def c05(run):
    r = rng(run)
    n = 3000 if run.quick() else 25000
    crun(run, [case_par_new(r) for _ in range(n)], label="new")
    crun(run, [case_par_text(r) for _ in range(n)], label="text")
    crun(run, [case_par_nc(r) for _ in range(n)], label="nc")

def grid_of(r, ny, nx, kind):
    """coordinates of ny by nx cells: along the axes in any direction, sheared, turned a little, or anywhere"""
    y0, x0 = r.choice([(50.0, 10.0), (50.0, 10.0), (-20.0, -60.0), (0.0, 0.0), (66.0, 100.0)])
    dy, dx = r.choice([1.0, 0.5, 2.0, -1.0]), r.choice([1.0, 0.5, 2.0, -1.0])
    if kind == "any": return mgrid(r, ny, nx, y0 - 5, y0 + 5), mgrid(r, ny, nx, x0 - 5, x0 + 5)
    a, b, c = (r.choice([0.0, 0.125, -0.25]), r.choice([0.0, 0.125, 0.25]), 0.0) if kind == "sheared" else (r.choice([0.125, -0.25, 0.5]), r.choice([0.125, -0.125]), r.choice([0.03125, 0.0625])) if kind == "turned" else (0.0, 0.0, 0.0)
    ys = [i * dy for i in range(ny)]; xs = [j * dx for j in range(nx)]
    if kind == "fan":
        k = r.choice([0.125, 0.25])
        if r.chance(0.2):     # and turned
            t = r.uniform(-0.4, 0.4)
            at = lambda i, j: (ys[i] * (1 + k * j) * math.cos(t) - xs[j] * math.sin(t), ys[i] * (1 + k * j) * math.sin(t) + xs[j] * math.cos(t))
            return tuple([[f32((y0, x0)[z] + at(i, j)[z]) for j in range(nx)] for i in range(ny)] for z in (0, 1))
        if r.chance(0.5): return [[f32(y0 + y) for _ in range(nx)] for y in ys], [[f32(x0 + x * (1 + k * i)) for x in xs] for i in range(ny)]
        return [[f32(y0 + y * (1 + k * j)) for j in range(nx)] for y in ys], [[f32(x0 + x) for x in xs] for _ in range(ny)]
    if kind == "axes" and r.chance(0.3): ys = [0.0]; xs = [0.0]; [ys.append(ys[-1] + dy * r.choice([0.5, 1, 1.5])) for _ in range(ny - 1)]; [xs.append(xs[-1] + dx * r.choice([0.5, 1, 1.5])) for _ in range(nx - 1)]
    return ([[f32(y0 + ys[i] + a * xs[j] + c * i * j) for j in range(nx)] for i in range(ny)], [[f32(x0 + xs[j] + b * ys[i] + c * i * j * j) for j in range(nx)] for i in range(ny)])
def elevs_of(r, ny, nx):
    m = r.choice(["hills", "hills", "flat", "steps", "sea"])
    def one():
        if r.chance(0.05): return -999.0
        return f32(r.uniform(0, 1000)) if m == "hills" else f32(r.uniform(100, 110)) if m == "flat" else r.choice([0.0, 100.0, 200.0, 300.0]) if m == "steps" else r.choice([0.0, 0.0, 0.0, f32(r.uniform(10, 500))])
    return [[one() for _ in range(nx)] for _ in range(ny)]
def lafs_of(r, ny, nx): return [[r.choice([0.0, 0.25, 0.5, 1.0, f32(r.uniform(0, 1)), f32(r.uniform(0, 1))]) for _ in range(nx)] for _ in range(ny)]
def down_field(r, ny, nx, ne, name, miss):
    lo, hi = {"P": (90000, 105000), "RR": (0, 10)}.get(name, (-20, 20))
    s = (lambda: f32(r.uniform(lo, hi))) if r.chance(0.7) else (lambda: r.choice([0.0, 1.0, 2.0, 5.0]))
    return [[[-999.0 if r.chance(miss) else s() for _ in range(ne)] for _ in range(nx)] for _ in range(ny)]
def down_opt(r, name):
    o = {}
    def maybe(p, k, v):
        if r.chance(p): o[k] = v
    if name == "smart":
        maybe(0.6, "radius", r.choice([0, 1, 1, 2])); maybe(0.6, "num", r.choice([1, 2, 3, 6])); maybe(0.02, "num", r.choice([0, -1])); maybe(0.4, "minElevDiff", r.choice([0.0, 50.0, 200.0]))
    elif name == "upscale":
        maybe(0.8, "stat", r.choice(["mean", "min", "max", "median", "std", "sum", "quantile"])); 
        if o.get("stat") == "quantile": o["quantile"] = r.choice([0.0, 0.25, 0.5, 1.0, f32(r.uniform(0, 1))])
        if r.chance(0.02): o["stat"] = "none"
        if r.chance(0.02): o.update(stat="quantile", quantile=r.choice([-0.5, 1.5]))
    elif name == "gradient":
        maybe(0.4, "downscaler", r.choice(["bilinear", "bilinear", "nearestNeighbour"]))
        if r.chance(0.01): o["downscaler"] = "smart"
        maybe(0.25, "constantElevGradient", r.choice([0.0, -0.0078125, 0.03125])); maybe(0.5, "elevRadius", r.choice([0, 1, 1, 2])); maybe(0.3, "minElevDiff", r.choice([0.0, 100.0, 10.0])); maybe(0.3, "defaultElevGradient", r.choice([-0.0078125, 0.015625]))
        maybe(0.2, "minElevGradient", r.choice([-0.0078125, 0.0])); maybe(0.2, "maxElevGradient", r.choice([0.0078125, 0.0])); maybe(0.2, "minLafForElevGradient", r.choice([0.25, 0.5])); maybe(0.2, "minNumPoints", r.choice([1, 3, 8])); maybe(0.2, "elevGradientVariable", r.choice(["U", "T"]))
        if r.chance(0.4):
            n = r.randint(1, 3); o["lafSearchRadii"] = [r.choice([1, 1, 2, 0]) for _ in range(n)]
            maybe(0.4, "lafWeights", [r.choice([0.25, 0.5, 1.0]) for _ in range(n if r.chance(0.97) else n + 1)]); maybe(0.3, "minLafDiff", r.choice([0.0625, 0.5])); maybe(0.3, "lafRadius", r.choice([1, 2])); maybe(0.2, "minFracSeaPoints", r.choice([0.25, 0.5])); maybe(0.2, "minLafGradient", r.choice([-1.0, 0.0])); maybe(0.2, "maxLafGradient", r.choice([1.0, 0.0]))
        elif r.chance(0.02): o["lafWeights"] = [1.0]
        maybe(0.1, "logTransform", 1); maybe(0.25, "limit", 1); maybe(0.15, "saveGradient", r.choice(["elev", "laf"]))
    return o
def down_file(r, f, kind, ny, nx, ne, nt, names, cell):
    la, lo = cell or grid_of(r, ny, nx, kind)
    d = {"f": f, "lats": la, "lons": lo, "ens": ne, "times": [float(i) for i in range(nt)]}
    if r.chance(0.9): d["elevs"] = elevs_of(r, ny, nx)
    if r.chance(0.9): d["lafs"] = lafs_of(r, ny, nx)
    miss = r.choice([0, 0, 0.1, 0.3])
    d["vars"] = {n: [down_field(r, ny, nx, ne, n, miss) for _ in range(nt)] for n in names}
    return d
def case_down(r):
    ne, nt = r.choice([1, 1, 2]), r.choice([1, 1, 2])
    ny, nx = r.choice([1, 2, 3, 3, 4, 5]), r.choice([1, 2, 3, 3, 4, 5])
    kind = r.choice(["axes", "axes", "axes", "sheared", "turned", "fan", "any"])
    a = down_file(r, "a", kind, ny, nx, ne, nt, ["T", "U", "P"], None)
    la = [y for row in a["lats"] for y in row]; lo = [x for row in a["lons"] for x in row]
    def outgrid():
        if r.chance(0.12): return [list(x) for x in a["lats"]], [list(x) for x in a["lons"]]
        my, mx = r.randint(1, 3), r.randint(1, 4)
        m = r.choice([0.0, 0.0, 0.5, 2.0])
        def at():
            if r.chance(0.15): i = r.randint(0, len(la) - 1); return la[i], lo[i]
            return f32(r.uniform(min(la) - m, max(la) + m)), f32(r.uniform(min(lo) - m, max(lo) + m))
        p = [[at() for _ in range(mx)] for _ in range(my)]
        if r.chance(0.05): p[r.randint(0, my - 1)][r.randint(0, mx - 1)] = (NAN, 10.0)
        return [[q[0] for q in row] for row in p], [[q[1] for q in row] for row in p]
    b0 = outgrid()
    b = down_file(r, "b", None, len(b0[0]), len(b0[0][0]), ne, nt if r.chance(0.97) else nt + 1, [n for n in ["T", "W"] if r.chance(0.3)], b0)
    if kind == "any" and r.chance(0.2): a["lats"][0][0] = NAN
    if r.chance(0.01): a["lats"] = [[NAN for _ in x] for x in a["lats"]]
    ev = [("f_new", dict(a)), ("f_new", dict(b))]
    for _ in range(r.choice([1, 1, 2, 3])):
        name = r.choice(["nearestNeighbour", "bilinear", "bilinear", "gradient", "gradient", "gradient", "pressure", "smart", "upscale", "bypass"])
        if name == "bilinear" and (kind == "any" or isnan(a["lats"][0][0])): name = "smart"
        if r.chance(0.005): name = "none"
        iv = r.choice(["T", "T", "T", "P", "N"]); 
        if name == "pressure" and r.chance(0.7): iv = "P"
        ov = {"name": r.choice([iv, iv, "W"])}
        if r.chance(0.3): ov["min"] = r.choice([0.0, -10.0])
        if r.chance(0.2): ov["max"] = r.choice([5.0, 10.0])
        o = down_opt(r, name)
        if kind == "any" or isnan(a["lats"][0][0]): o.pop("downscaler", 0)
        src, dst = r.choice([("a", "b")] * 8 + [("a", "a"), ("b", "a")])
        if src == "b" and (name == "bilinear" or "downscaler" in o): src, dst = "a", "b"
        ev.append(("d_run", {"name": name, "iv": {"name": iv}, "ov": ov, "opt": o, "in": src, "out": dst}))
        if name == "none": break
        if r.chance(0.3): ev.append(("f_get", {"f": dst, "v": r.choice(["T", "W"]), "t": 0, "byvar": False, "skip": False}))
        if r.chance(0.3):
            # the grid moves, and with it the neighbours
            f, g = r.choice([("b", b), ("b", b), ("a", a)])
            if f == "b" or kind != "axes": q = mgrid(r, len(g["lats"]), len(g["lats"][0]), min(la), max(la)); g2 = dict(lats=q)
            else: g2 = dict(lats=[[f32(y + 1.25) for y in row] for row in g["lats"]])
            if r.chance(0.4):
                # only a part of it does: one place, one row or one column, of either coordinate
                k = r.choice(["lats", "lons"]); q = [list(row) for row in g[k]]; h, w = len(q), len(q[0]); i, j = r.randint(0, h - 1), r.randint(0, w - 1); part = r.choice(["place", "row", "column"])
                for y in range(h):
                    for x in range(w):
                        if (part == "row" or x == j) and (part == "column" or y == i) and not isnan(q[y][x]): q[y][x] = f32(q[y][x] + r.choice([-2.5, 2.5, 3.25, 7.0]))
                g[k] = q
                if f == "a": kind = "any"
                ev.append(("f_set" + k, {"f": f, "x": q})); back = ("b", "a") if r.chance(0.3) else ("a", "b")
                near = r.choice(["nearestNeighbour", "gradient", "smart"])
                ev.append(("d_run", {"name": near, "iv": {"name": "T"}, "ov": {"name": "T"}, "opt": {k: v for k, v in down_opt(r, near).items() if k != "downscaler"}, "in": back[0], "out": back[1]}))
            elif not (f == "a" and kind in ("sheared", "turned")): g["lats"] = g2["lats"]; ev.append(("f_setlats", {"f": f, "x": g2["lats"]}))
        if r.chance(0.1): ev.append(("f_setelevs", {"f": "b", "x": elevs_of(r, len(b["lats"]), len(b["lats"][0]))}))
    return ev
@check("C06")
def c06(run):
    r = rng(run)
    crun(run, [case_down(r) for _ in range(4000 if run.quick() else 40000)])

# ---- calibrators ------------------------------------------------------------------------------------------
NAMES = ["T", "U", "V", "W"]
def cal_par(r, name, la, lo, nt, sets=None):
    """A parameter store for a calibrator: the events that make it."""
    cells = [(y, x) for a, b in zip(la, lo) for y, x in zip(a, b)]
    n = 0 if name == "nowhere" else r.choice([0] * 8 + [1]) if name == "neighbourhood" else r.choice([1, 1, 2, 3, 4]) if r.chance(0.97) else 0
    pl = []
    while len(pl) < n:
        y, x = r.choice(cells); m = r.choice([0.0, 0.2, 1.0, 3.0])
        q = [f32(max(-90, min(90, y + r.uniform(-m, m)))), f32(max(-180, min(180, x + r.uniform(-m, m)))), f32(r.choice([0.0, 100.0, r.uniform(0, 1000), -999.0]))]
        if all(abs(q[0] - p[0]) + abs(q[1] - p[1]) > 0.05 for p in pl): pl.append(q)
    ty = r.choice(["text", "text", "text", "netcdf"]) if pl else "text"
    opt = {"file": "par.x"}
    times = r.choice([1, 1, nt]) if r.chance(0.97) else max(1, nt - 1)
    if r.chance(0.2): opt["cycle"] = 1
    def value():
        if r.chance(0.03): return -999.0
        return f32(r.choice([r.uniform(0, 300000), 100000.0, 0.0, 20000.0])) if name == "mask" else float(r.choice([0, 1, 1, 2, 3])) if name == "neighbourhood" and r.chance(0.97) else f32(r.choice([r.uniform(-20, 20), float(r.randint(-5, 5))]))
    k = 1 if r.chance(0.97) else 2
    ev = [("p_new", {"p": "p", "type": ty, "new": True, "opt": opt})]
    hole = r.choice([0.1, 0.3, 0.5]) if r.chance(0.25) else 0
    for t in range(times):
        for l in pl or [None]:
            if r.chance(hole): continue
            d = {"p": "p", "t": t, "v": sets() if sets else [value() for _ in range(k)]}
            if l: d["loc"] = l
            ev.append(("p_set", d))
    if len(ev) > 1: ev.append(("p_tree", {"p": "p"}))
    return ev
def cal_opt(r, name, names, others=None):
    o = {}
    def maybe(p, k, v):
        if r.chance(p): o[k] = v
    def any_name(n=None): return n if n and (others is None or n in names) else r.choice(names + names + (NAMES if others is None else others))
    if name == "threshold":
        n = r.choice([1, 1, 2, 3]); th = sorted({r.choice([0.0, 1.0, 2.0, 5.0, -1.5, f32(r.uniform(-20, 20))]) for _ in range(n)})
        o["thresholds"] = th; o["values"] = [r.choice([0.0, 1.0, -3.0, f32(r.uniform(-9, 9)), -999.0 if r.chance(0.1) else 7.0]) for _ in range(len(th) + 1)]
        maybe(0.5, "equals", [r.choice([0, 1]) for _ in th])
        if r.chance(0.02): o["values"].append(1.0)
        if r.chance(0.02): o["equals"] = [1] * (len(th) + 1)
        if r.chance(0.02): del o[r.choice(["thresholds", "values"])]
    elif name == "mask": maybe(0.6, "keep", r.choice([0, 1]))
    elif name == "qc":
        a, b = sorted([r.choice([0.0, 1.0, 2.0, f32(r.uniform(-15, 15))]) for _ in range(2)])
        maybe(0.7, "min", a); maybe(0.7, "max", b)
    elif name == "cloud": o["precipVariable"] = any_name(); maybe(0.5, "value", r.choice([0.5, 1.0, 0.0, -2.0])); 
    elif name == "phase":
        o["temperature"] = any_name(); o["precipitation"] = any_name()
        a, b = sorted([r.choice([0.0, 1.0, 2.0, 270.0, f32(r.uniform(-15, 15))]) for _ in range(2)])
        if r.chance(0.7): o["snowThreshold"] = a; o["rainThreshold"] = b
        maybe(0.5, "minPrecip", r.choice([0.0, 1.0, 0.5, -5.0]))
        if r.chance(0.02): del o[r.choice(["temperature", "precipitation"])]
    elif name == "diagnoseWind":
        o["compute"] = r.choice(["x", "y", "speed", "direction"]) if r.chance(0.97) else "none"
        for k in (["speed", "direction"] if o["compute"] in "xy" else ["x", "y"]): o[k] = any_name()
        if r.chance(0.03): del o[r.choice(list(o))]
    elif name == "diagnoseHumidity":
        o["compute"] = r.choice(["dewpoint", "rh", "wetbulb"]) if r.chance(0.97) else "none"
        o["temperature"] = any_name("T" if r.chance(0.7) else None)
        o["rh"] = any_name("U" if r.chance(0.7) else None); o["dewpoint"] = any_name("V" if r.chance(0.7) else None); maybe(0.5, "pressure", any_name("W" if r.chance(0.7) else None))
        if r.chance(0.05): del o[r.choice(list(o))]
    elif name == "qnh":
        if r.chance(0.98): o["pressureVariable"] = any_name()
    elif name == "override": maybe(0.6, "radius", r.choice([0, 1, 2])); maybe(0.4, "maxElevDiff", r.choice([50.0, 200.0, 0.0]))
    elif name in ("window", "neighbourhood"):
        maybe(0.8, "stat", r.choice(["mean", "min", "max", "median", "std", "sum", "quantile"]))
        if o.get("stat") == "quantile": o["quantile"] = r.choice([0.0, 0.25, 0.5, 1.0, f32(r.uniform(0, 1))])
        if r.chance(0.02): o["stat"] = "none"
        if r.chance(0.02): o.update(stat="quantile", quantile=r.choice([-0.5, 1.5]))
        if name == "window":
            maybe(0.8, "length", r.choice([1, 2, 3, 4, 5]) if r.chance(0.98) else 0); maybe(0.4, "before", r.choice([0, 1, 1])); maybe(0.4, "keepMissing", r.choice([0, 1, 1])); maybe(0.4, "edgePolicy", r.choice(["missing", "missing", "compute"]) if r.chance(0.98) else "x")
        else:
            maybe(0.8, "radius", r.choice([0, 1, 1, 2]) if r.chance(0.98) else -1); maybe(0.4, "fast", r.choice([0, 0, 1])); maybe(0.3, "approx", 1)
    elif name == "deaccumulate": maybe(0.6, "window", r.choice([1, 2, 3, 1, 2, 3, 0, 0, -1, -3]) if r.chance(0.5) else r.choice([1, 2, 3, 0]))
    return o
PLAIN = ["threshold", "mask", "qc", "cloud", "phase", "diagnoseWind", "diagnoseHumidity", "altitude", "qnh", "sort", "override", "window", "accumulate", "deaccumulate", "neighbourhood"]
def cal_field(r, ny, nx, ne, phys, n, miss):
    def one():
        if r.chance(miss): return r.choice([-999.0, -999.0, -999.0, NAN])
        if phys: return f32({"T": r.uniform(240, 310), "U": r.choice([r.uniform(0, 1), r.uniform(0, 1), 0.0, 1.0]), "V": r.uniform(230, 300), "W": r.choice([r.uniform(80000, 105000), 101325.0, 0.0])}[n])
        return f32(r.choice([r.uniform(-20, 20), float(r.randint(0, 5)), float(r.randint(0, 3)), r.uniform(0, 1)]))
    return [[[one() for _ in range(ne)] for _ in range(nx)] for _ in range(ny)]
def cal_file(r, nt=None, ny=None, nx=None, ne=None, names=None, phys=False):
    ny = ny or r.choice([1, 2, 3, 3, 4, 6]); nx = nx or r.choice([1, 2, 3, 3, 4, 5]); ne = ne or r.choice([1, 1, 2, 3]); nt = nt or r.choice([1, 1, 2, 3, 4, 5])
    la, lo = grid_of(r, ny, nx, r.choice(["axes", "axes", "sheared", "any"]))
    names = names or [n for n in NAMES if r.chance(0.8)] or ["T"]
    miss = r.choice([0, 0, 0.1, 0.3])
    d = {"f": "a", "lats": la, "lons": lo, "ens": ne, "times": [float(i * 3600) for i in range(nt)], "vars": {n: [cal_field(r, ny, nx, ne, phys, n, miss) for _ in range(nt)] for n in names}}
    if r.chance(0.85): d["elevs"] = elevs_of(r, ny, nx)
    return d, (ny, nx, ne, nt), names
def case_plain(r):
    name = r.choice(PLAIN)
    phys = name in ("diagnoseHumidity", "qnh") and r.chance(0.9) or r.chance(0.05)
    big = name in ("window", "accumulate", "deaccumulate")
    d, (ny, nx, ne, nt), names = cal_file(r, phys=phys, **(dict(nt=r.choice([1, 3, 5, 7, 8]), ny=r.choice([1, 2]), nx=2) if big else dict(nt=r.choice([1, 1, 2, 3]), ne=5 if name == "sort" else None)))
    ev = [("f_new", d)]
    for k in range(r.choice([1, 1, 2, 3])):
        if k: name = r.choice(PLAIN)
        e = {"name": name, "f": "a", "v": {"name": r.choice(names + names + NAMES)}, "opt": cal_opt(r, name, names), "look": NAMES}
        need = name in ("mask", "altitude", "override") or (name == "neighbourhood" and r.chance(0.3))
        if (need and r.chance(0.99)) or r.chance(0.02) and name != "neighbourhood":
            if any(x[0] == "p_new" for x in ev): ev.append(("p_del", {"p": "p"}))
            ev += cal_par(r, name, d["lats"], d["lons"], nt); e["p"] = "p"
        ev.append(("c_run", e))
        if r.chance(0.1): ev.append(("f_poke", {"f": "a", "v": r.choice(names), "t": r.randint(0, nt - 1), "y": r.randint(0, ny - 1), "x": r.randint(0, nx - 1), "e": r.randint(0, ne - 1), "val": 3.0}))
        if r.chance(0.1): ev.append(("f_clear", {"f": "a"}))
    return ev
@check("C07")
def c07(run):
    r = rng(run)
    crun(run, [case_plain(r) for _ in range(5000 if run.quick() else 50000)])
# ---- calibrators with coefficients --------------------------------------------------------------------
PARCALS = ["regression", "qq", "windDirection", "gaussian", "zaga", "bct"]
def pc_opt(r, name, names):
    o = {}
    def maybe(p, k, v):
        if r.chance(p): o[k] = v
    if name == "windDirection": maybe(0.98, "directionVariable", r.choice(names))
    elif name == "regression":
        maybe(0.2, "order", r.randint(0, 3)); maybe(0.2, "intercept", r.choice([0, 1]))
        maybe(0.5, "variables", [r.choice(["1"] + names) for _ in range(r.choice([1, 2, 3]))])
    elif name == "qq":
        maybe(0.6, "extrapolation", r.choice(["1to1", "meanSlope", "nearestSlope", "zero"]) if r.chance(0.97) else "none")
        if r.chance(0.25):
            k = r.randint(1, 3); o["extraObs"] = [f32(r.uniform(-20, 20)) for _ in range(k)]; o["extraFcst"] = [f32(r.uniform(-20, 20)) for _ in range(k if r.chance(0.95) else k + 1)]
    elif name == "gaussian": maybe(0.5, "neighbourhoodSize", r.choice([0, 1, 1, 2, 5]) if r.chance(0.95) else -1)
    elif name == "bct": maybe(0.4, "maxEnsMean", f32(r.choice([5.0, 10.0, r.uniform(1, 20)])))
    elif name == "zaga":
        maybe(0.4, "neighbourhoodSize", r.choice([0, 1, 1, 2, 5]) if r.chance(0.95) else -1)
        maybe(0.3, "maxEnsMean", f32(r.choice([5.0, 10.0, r.uniform(0.5, 20)])) if r.chance(0.95) else 0.0)
        maybe(0.4, "fracThreshold", f32(r.choice([0.0, 1.0, 2.0, r.uniform(0, 3)])))
        maybe(0.25, "6h", 1)
    return o
def zaga_side(r, o, v, names):
    rest = [n for n in NAMES if n != v]; r.shuffle(rest)
    o["popVariable"] = rest[0]
    if r.chance(0.5): o["popThreshold"] = f32(r.choice([0.0, 0.5, 1.0, -1.0, r.uniform(0, 4)]))
    for k, q, w in (("precipLowQuantile", "lowVariable", rest[1]), ("precipMiddleQuantile", "middleVariable", rest[2]), ("precipHighQuantile", "highVariable", rest[0])):
        if w != rest[0] and r.chance(0.4): o[k] = f32(r.choice([0.0, 0.1, 0.5, 0.9, 0.99, r.uniform(0, 1)]) if r.chance(0.95) else 1.5); o[q] = w
def pc_set(r, name, o):
    few = r.chance(0.02)
    def num(a): return -999.0 if miss and r.chance(0.3) else f32(r.choice([r.uniform(-a, a), 0.0, r.uniform(-a, a)]))
    miss = r.chance(0.04)
    if name == "windDirection": k = 9 if not few else r.choice([8, 10]); mk = lambda: [num(1) for _ in range(k)]
    elif name == "regression":
        k = len(o["variables"]) if "variables" in o else r.choice([1, 2, 2, 3, 4])
        if few: k += 1
        mk = lambda: [num(3) for _ in range(k)]
    elif name == "qq":
        n = r.choice([1, 1, 2, 3, 4, 6])
        def mk():
            ob = sorted(num(10) for _ in range(n)); fc = sorted(num(10) for _ in range(n))
            if r.chance(0.2): fc = sorted(float(round(x)) for x in fc)
            v = [x for p in zip(ob, fc) for x in p]
            return v + [1.0] if few else v
    elif name == "gaussian": mk = lambda: [f32(r.uniform(-2, 2)), f32(r.uniform(-1, 1))] if not miss else [num(2), num(1)]
    elif name == "zaga": mk = lambda: [num(1), num(1), f32(r.uniform(-1.5, 0.5)), num(0.1), num(2), num(0.5), num(2), num(1)]
    else: mk = lambda: [f32(r.choice([0.0, r.uniform(-1, 3)])), f32(r.choice([1.0, r.uniform(0, 2)])), f32(r.uniform(-3, 0)), num(0.5), f32(r.choice([0.0, 1.0, r.uniform(-2, 2)])), num(0.2), f32(r.choice([r.uniform(0.5, 3), 12.0, 1.0]))]
    if few and name in ("gaussian", "zaga", "bct"): m0 = mk; mk = lambda: m0()[:-1]
    return mk
def case_coef(r):
    name = r.choice(PARCALS)
    ens = name in ("gaussian", "zaga", "bct")
    d, (ny, nx, ne, nt), names = cal_file(r, nt=r.choice([1, 1, 2, 3]) if name != "zaga" or r.chance(0.75) else r.choice([6, 7, 8]), ny=r.choice([1, 2, 3]), nx=r.choice([1, 2, 3]), ne=r.choice([1, 2, 3, 5]) if ens else None)
    if ens:
        low = r.choice([0.0, 0.0, 0.3, 1.0])
        for n in names:
            if r.chance(0.9):
                flat = r.chance(0.15)
                def amount():
                    return 0.0 if r.chance(0.3 if name == "zaga" else 0.02) else f32(low + r.uniform(0, r.choice([1, 10])))
                def cell():
                    one = amount()
                    return [-999.0 if r.chance(0.01) else one if flat else amount() for _ in range(ne)]
                d["vars"][n] = [[[cell() for _ in range(nx)] for _ in range(ny)] for _ in range(nt)]
    elif name == "windDirection" and r.chance(0.9):
        for n in names: d["vars"][n] = [[[[-999.0 if r.chance(0.05) else f32(r.choice([r.uniform(0, 360), float(r.choice([0, 45, 90, 180, 270, 360])), r.uniform(-360, 720)])) for _ in range(ne)] for _ in range(nx)] for _ in range(ny)] for _ in range(nt)]
    ev = [("f_new", d)]
    for k in range(r.choice([1, 1, 2])):
        if k and not ens: name = r.choice(PARCALS[:2])
        o = pc_opt(r, name, names)
        v = r.choice(names + names + names + NAMES)
        if name == "zaga" and r.chance(0.4): zaga_side(r, o, v, names)
        e = {"name": name, "f": "a", "v": {"name": v}, "opt": o, "look": NAMES}
        if r.chance(0.99):
            if any(x[0] == "p_new" for x in ev): ev.append(("p_del", {"p": "p"}))
            ev += cal_par(r, name, d["lats"], d["lons"], nt, pc_set(r, name, o)); e["p"] = "p"
        ev.append(("c_run", e))
    return ev
@check("C08")
def c08(run):
    r = rng(run)
    crun(run, [case_coef(r) for _ in range(7000 if run.quick() else 40000)])

# ---- calibrators that spread what stations know ---------------------------------------------------------
def case_spatial(r):
    name = r.choice(["kriging", "kriging", "coastal", "oi", "oi"])
    ny, nx, ne, nt = r.choice([1, 2, 3, 4]), r.choice([1, 2, 3, 4]), r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 3])
    if name == "oi":
        nt = r.choice([1, 1, 2])
        if r.chance(0.75): ny, nx = r.choice([3, 4, 5]), r.choice([3, 4, 5])
        ne = r.choice([1, 1, 2, 5, 6])
    d, dims, names = cal_file(r, ny=ny, nx=nx, ne=ne, nt=nt)
    if r.chance(0.7): d["lafs"] = [[-999.0 if r.chance(0.04) else v for v in row] for row in lafs_of(r, ny, nx)]
    o = {}
    def maybe(p, k, v):
        if r.chance(p): o[k] = v
    if name == "oi":
        miss = r.choice([0, 0, 0, 0.05])
        for n in names: d["vars"][n] = [[[[-999.0 if r.chance(miss) else f32(r.uniform(-10, 10)) for _ in range(ne)] for _ in range(nx)] for _ in range(ny)] for _ in range(nt)]
        o["d"] = f32(r.choice([200000.0, 400000.0, 100000.0, 1000000.0])); maybe(0.7, "h", r.choice([200.0, 500.0, 1000.0, -999.0])); maybe(0.5, "w", r.choice([0.2, 0.5, -999.0, 2.0])); o["w"] = f32(o.get("w", 0.5))
        maybe(0.8, "maxElevDiff", r.choice([2000.0, 500.0, -999.0, 100.0])); maybe(0.3, "maxLocations", r.choice([1, 2, 2, 3])); maybe(0.4, "sigma", r.choice([0.5, 2.0])); maybe(0.3, "delta", r.choice([0.5, 2.0, 1.5]))
        maybe(0.5, "epsilon", r.choice([0.25, 1.0, 2.0])); maybe(0.2, "minRho", r.choice([0.125, 0.0078125, 0.5])); maybe(0.3, "elevGradient", f32(r.choice([-0.0065, 0.01, 0.0]))); maybe(0.3, "useEns", r.choice([0, 1]))
        maybe(0.5, "minEns", r.choice([1, 2, 2, 3, 5])); maybe(0.4, "extrapolate", r.choice([0, 1, 1])); maybe(0.2, "wmin", r.choice([0.5, 0.25])); maybe(0.25, "crossValidate", r.choice([0, 1, 1])); maybe(0.2, "landOnly", 1)
        maybe(0.5, "rhoType", r.choice(["gaussian", "soar", "soar"]) if r.chance(0.96) else "none")
        if ne < o.get("minEns", 5) and r.chance(0.3): o["useEns"] = 1
        k = r.choice([1, 1, 2]) if r.chance(0.97) else 4
        box = r.chance(0.25)
        maybe(0.05, "x", r.randint(0, 3)); maybe(0.05, "y", r.randint(0, 3)); maybe(0.05, "sigmaC", 2.0); maybe(0.05, "dc", 5000.0); maybe(0.05, "epsilonC", 0.25)
        if box:
            o["transform"] = r.choice(["boxcox"] * 12 + ["none", "log"]); maybe(0.4, "lambda", r.choice([0.25, 0.5, 1.0])); o.pop("elevGradient", 0)
            if r.chance(0.85): o["minEns"] = r.choice([1, 2]); o["useEns"] = 1
            top = r.choice([1, 10, 10, 50])
            for n in names: d["vars"][n] = [[[[-999.0 if r.chance(miss) else 0.0 if r.chance(0.15) else f32(r.uniform(-0.05, 1) * top) for _ in range(ne)] for _ in range(nx)] for _ in range(ny)] for _ in range(nt)]
            o0 = lambda: 0.0 if r.chance(0.15) else f32(r.uniform(-0.05, 1) * top)
        else: o0 = lambda: f32(r.uniform(-10, 10))
        sets = lambda: [-999.0 if r.chance(0.04) else o0()] + [f32(r.uniform(0.3, 3)) for _ in range(k - 1)]
    elif name == "kriging":
        maybe(0.9, "radius", r.choice([100000.0, 300000.0, 600000.0, 1000000.0]) if r.chance(0.93) else r.choice([0.0, -1.0])); maybe(0.9, "efoldDist", r.choice([50000.0, 200000.0, 500000.0, 1000000.0]) if r.chance(0.98) else -1.0)
        maybe(0.4, "maxElevDiff", r.choice([100.0, 300.0, 1000.0]) if r.chance(0.9) else r.choice([0.0, -999.0, -1.0])); maybe(0.6, "type", r.choice(["cressman", "barnes", "barnes"]) if r.chance(0.97) else "none")
        maybe(0.6, "operator", r.choice(["add", "subtract", "multiply", "divide"]) if r.chance(0.98) else "none"); maybe(0.5, "approxDist", r.choice([0, 1])); maybe(0.3, "crossValidate", 1)
        if r.chance(0.35):
            o["auxVariable"] = r.choice(names)
            a, b = sorted([f32(r.uniform(-15, 15)), f32(r.uniform(-15, 15))]); o["range"] = [a, b] if r.chance(0.95) else r.choice([[b + 1, a], [a]])
            maybe(0.6, "window", r.choice([0, 1, 1, 2])); 
            if r.chance(0.03): del o["range"]
        mult = o.get("operator") in ("multiply", "divide")
        sets = lambda: [-999.0 if r.chance(0.03) else f32(r.uniform(0.5, 1.6)) if mult and r.chance(0.95) else f32(r.choice([r.uniform(-10, 10), 0.0]))] + ([1.0] if r.chance(0.02) else [])
    else:
        maybe(0.7, "searchRadius", r.choice([0, 1, 1, 2, 3])); maybe(0.5, "minLafDiff", r.choice([0.0, 0.25, 0.5, f32(0.3)])); maybe(0.4, "useNN", r.choice([0, 1, 1]))
        k = r.choice([3] * 20 + [4, 2])
        sets = lambda: [-999.0 if r.chance(0.01) else f32(r.choice([r.uniform(-3, 3), 0.0, 1.0])) for _ in range(k)]
    ev = [("f_new", d)]
    for k2 in range(r.choice([1, 1, 1, 2])):
        e = {"name": name, "f": "a", "v": {"name": r.choice(names + names + names + NAMES)}, "opt": dict(o), "look": NAMES}
        if r.chance(0.99):
            if any(x[0] == "p_new" for x in ev): ev.append(("p_del", {"p": "p"}))
            nowhere = name == "oi" and r.chance(0.06)
            if nowhere: e["opt"]["h"] = e["opt"]["maxElevDiff"] = -999.0
            par = cal_par(r, "nowhere" if nowhere else name, d["lats"], d["lons"], nt, sets)
            # in the same heights as the cells around
            if "elevs" in d and r.chance(0.6):
                el = [v for row in d["elevs"] for v in row if v != -999]
                move = {}
                for op, a in par:
                    if op == "p_set" and "loc" in a and el:
                        h = move.setdefault(tuple(a["loc"]), f32(r.choice(el) + r.uniform(-50, 50)))
                        a["loc"] = a["loc"][:2] + [h]
            ev += par; e["p"] = "p"
        ev.append(("c_run", e))
        if r.chance(0.1): o.pop("crossValidate", 0); o.pop("extrapolate", 0)
    return ev
@check("C11")
def c11(run):
    r = rng(run)
    crun(run, [case_spatial(r) for _ in range(3000 if run.quick() else 30000)])

# ---- files on disk -------------------------------------------------------------------------------------
FILL = f32(9.969209968386869e36)
def nc_layout(r):
    """A file with its dimensions, variables and options, in one of the many layouts that can be read."""
    classic = r.chance(0.3)
    ny, nx, ne, nt = r.randint(1, 3), r.randint(1, 4), r.choice([1, 2, 2, 3]), r.choice([1, 1, 2, 2, 3])
    opt = {}; L = {"opt": opt, "classic": classic}
    yn, xn = r.choice([("y", "x"), ("lat", "lon"), ("latitude", "longitude"), ("yy", "xx")])
    if yn == "yy": opt["yDim"] = yn; opt["xDim"] = xn
    oned = r.chance(0.12)
    if oned: ny = 1; yn = ""; opt.pop("yDim", 0)
    tdim = r.choice(["time"] * 6 + ["tt", ""])
    if tdim == "tt": opt["timeDim"] = "tt"
    edim = r.choice(["", "ensemble_member", "ensemble_member", "ens"])
    if edim == "ens": opt["ensDim"] = "ens"
    elif edim == "" and r.chance(0.3): opt["ensDim"] = "member"
    if edim == "": ne = 1
    if tdim == "": nt = 1
    lev = r.choice([0, 0, 0, 1, 2, 3])
    unlim = tdim != "" and r.chance(0.5)
    size = {yn: ny, xn: nx, tdim: nt, edim: ne, "lev": lev}
    dims = [{"n": d, "size": size[d], **({"unlim": True} if d == tdim and unlim else {})} for d in [tdim, edim, yn, xn] + (["lev"] if lev else []) if d]
    r.shuffle(dims)
    def n_of(ds):
        k = 1
        for d in ds: k *= size[d]
        return k
    def perm(ds):
        ds = [d for d in ds if d]
        if not r.chance(0.5): r.shuffle(ds)
        if unlim and tdim in ds: ds.remove(tdim); ds.insert(0, tdim)
        return ds
    vs = []
    def var(n, ds, data, ty="f", atts=None): vs.append({"n": n, "dims": ds, "type": ty, "data": data, "atts": atts or {}})
    def expand(ds, f): # f(y, x) along dims
        out = [{}]
        for d in ds: out = [dict(o, **{d: i}) for o in out for i in range(size[d])]
        return [f(o.get(yn, 0), o.get(xn, 0)) for o in out]
    latn, lonn = r.choice([("lat", "lon"), ("latitude", "longitude"), ("la", "lo")])
    if latn == "la": opt["latVar"] = "la"; opt["lonVar"] = "lo"
    two = r.chance(0.5) and not oned
    la = [[f32(r.uniform(-60, 60)) for _ in range(nx)] for _ in range(ny)]; lo = [[f32(r.uniform(-180, 360)) for _ in range(nx)] for _ in range(ny)]
    gd = perm([yn, xn]); extra = []
    if two and tdim and r.chance(0.15): extra = [tdim]
    if two:
        d = perm([yn, xn] + extra)
        var(latn, d, expand(d, lambda y, x: la[y][x])); var(lonn, d, expand(d, lambda y, x: lo[y][x]), r.choice("fd"))
    else:
        var(latn, [yn] if yn else [xn], expand([yn] if yn else [xn], lambda y, x: la[y][x])); var(lonn, [xn], expand([xn], lambda y, x: lo[0][x]))
    def grid(n, lohi, atts=None, one=0.1, ex=0.05):
        ds = perm([yn, xn])
        if r.chance(one): ds = [r.choice([d for d in (yn, xn) if d])]
        elif r.chance(ex) and tdim: ds = perm([yn, xn, tdim])
        a = dict(atts or {}); fill = FILL
        if r.chance(0.3): fill = a["_FillValue"] = -9999.0
        miss = r.choice([0, 0, 0.3, 1.0])
        var(n, ds, [fill if r.chance(miss) else f32(r.uniform(*lohi)) for _ in range(n_of(ds))], r.choice("ffd"), a)
    if r.chance(0.4): grid("altitude", (0, 100))
    if r.chance(0.25): grid("surface_geopotential", (0, 1000))
    if r.chance(0.15): grid("topo", (0, 100)); 
    if r.chance(0.15): opt["elevVar"] = r.choice(["topo", "altitude", "surface_geopotential"])
    if r.chance(0.3): grid("land_area_fraction", (0, 1))
    if r.chance(0.1): grid("laf", (0, 1)); opt["lafVar"] = "laf"
    tvn = r.choice(["time"] * 6 + ["valid", ""]) if tdim else r.choice(["time", "time", ""])
    if not tvn: L["one"] = True
    times = [f32(r.randint(0, 3) * 128.0 + i * 3600.0) for i in range(nt)]
    if tvn:
        if tvn == "valid": opt["timeVar"] = "valid"
        var(tvn, [tdim] if tdim else [], times, r.choice(["d", "d", "i", "f"]), {"units": "s"} if r.chance(0.3) else {})
    ref = r.chance(0.6) or not tvn or not tdim
    if ref: var("forecast_reference_time", [], [f32(r.randint(0, 100) * 64.0)], r.choice(["d", "d", "i"]))
    names = []
    for n in ["T", "P", "U", "S"]:
        if not r.chance(0.7): continue
        ds = [yn, xn]
        if tdim and r.chance(0.85): ds.append(tdim)
        if edim and r.chance(0.8): ds.append(edim)
        if lev and r.chance(0.6): ds.append("lev")
        ds = perm(ds); ty = r.choice(["f"] * 4 + ["d", "s", "i", "b"]); a = {}
        if r.chance(0.4 if ty in "fd" else 0.7): a["_FillValue"] = r.choice([-9999.0, -999.0, 0.0]) if ty in "fd" else r.choice([-100.0, 0.0, 127.0])
        if r.chance(0.3 if ty in "fd" else 0.7): a["scale_factor"] = r.choice([0.5, 0.25, 2.0, 0.125, -0.5]); a["add_offset"] = r.choice([0.0, 100.0, -32.0, 0.5])
        elif r.chance(0.05): a[r.choice(["scale_factor", "add_offset"])] = 0.5
        if r.chance(0.3): a["units"] = "K"
        if r.chance(0.2): a["standard_name"] = "air"
        if r.chance(0.2): a["note"] = "kept as is"
        fill = a.get("_FillValue", FILL)
        whole = ty in "sib"
        var(n, ds, [(fill if not whole or "_FillValue" in a else 7.0) if r.chance(0.15) else NAN if ty in "fd" and r.chance(0.03) else float(r.randint(-90, 90)) if whole or r.chance(0.4) else f32(r.randint(-4000, 4000) / 16.0) for _ in range(n_of(ds))], ty, a)
        names.append(n)
    if r.chance(0.3): vs.append({"n": "proj", "dims": [], "type": "i", "data": [1.0], "atts": {"grid_mapping": "latlon"}})
    r.shuffle(vs)
    at = {}
    if r.chance(0.4): at["history"] = r.choice(["once made", "b\na", ""]).replace("\n", " ")
    if at.get("history") == "": at.pop("history")
    if classic and r.chance(0.02): at["history"] = "h*9000000"     # longer than the stack
    if r.chance(0.3): at["Conventions"] = "CF-1.6"
    if r.chance(0.3): at["title"] = "a file"
    # something wrong with it
    if r.chance(0.04):
        w = r.choice(["lat", "dim", "var", "ref", "type"])
        if w == "lat": vs[:] = [v for v in vs if v["n"] != latn]
        elif w == "dim": opt[r.choice(["yDim", "xDim", "timeDim"])] = "nowhere"
        elif w == "var": opt[r.choice(["latVar", "lonVar", "timeVar"])] = "nowhere"
        elif w == "ref" and tdim: vs[:] = [v for v in vs if v["n"] != "forecast_reference_time"] + [{"n": "forecast_reference_time", "dims": [tdim], "type": "d", "data": times}]
        else: opt["type"] = "netcdf"
    L.update(ev=("mk_nc", {"path": "a.nc", "classic": classic, "dims": dims, "vars": vs, "atts": at}), ny=ny, nx=nx, ne=ne, nt=1 if L.get("one") else nt, names=names, lev=lev, whole=any(v["type"] in "sib" for v in vs if v["n"] in names), unlim=unlim, tdim=tdim, edim=edim, loose=[v["n"] for v in vs if v["n"] in names and tdim not in v["dims"]])
    return L
def nc_bad(L):
    """Layouts about which nothing is promised: times that are not along the time dimension, a dimension taken twice."""
    e = L["ev"][1]; opt = L["opt"]
    v = {x["n"]: x for x in e["vars"]}; dn = [d["n"] for d in e["dims"]]
    t = opt.get("timeDim", "time" if "time" in dn else ""); tv = opt.get("timeVar", "time" if "time" in v else "")
    return tv in v and v[tv]["dims"] != ([t] if t in dn else [])
def file_work(r, f, nt, ny, nx, ne, names, lev, k):
    """Reading and changing fields of an open file."""
    ev = []
    for _ in range(k):
        t = r.randint(0, nt - 1) if nt else 0; v = r.choice(names)
        op = r.choice(["f_get"] * 6 + ["f_poke"] * 3 + ["f_add"] * 2 + ["f_init", "f_has", "f_clear", "f_setref", "f_vars", "f_grid"])
        d = {"f": f}
        if op == "f_get":
            d.update(v=v, t=t, byvar=r.chance(0.5)); d["skip"] = d["byvar"] and r.chance(0.1)
            if d["byvar"] and r.chance(0.5): d["level"] = r.randint(0, lev + (1 if r.chance(0.03) else -1)) if lev else 0
        elif op == "f_poke": d.update(v=v, t=t, y=r.randint(0, ny - 1), x=r.randint(0, nx - 1), e=r.randint(0, ne - 1), val=r.choice([-999.0, f32(r.randint(-200, 200) / 16.0), f32(r.randint(-200, 200) / 16.0)]))
        elif op == "f_add": d.update(v=v, t=t, field=[[[r.choice([-999.0, NAN]) if r.chance(0.15) else f32(r.randint(-1600, 1600) / 16.0) for _ in range(ne)] for _ in range(nx)] for _ in range(ny)])
        elif op in ("f_init", "f_has"): d.update(v=v)
        elif op == "f_vars": d["names"] = [r.choice(names) for _ in range(3)]
        elif op == "f_setref": d["t"] = r.choice([-999.0, 64.0, 128000.0])
        ev.append((op, d))
    return ev
def case_nc(r):
    while True:
        L = nc_layout(r)
        if not nc_bad(L): break
    ny, nx, ne, nt, lev = L["ny"], L["nx"], L["ne"], L["nt"], L["lev"]
    names = L["names"] + ["N"]; opts = L["opt"]
    ev = [L["ev"]]
    loose = set(L["loose"])
    for rnd in range(r.choice([1, 1, 2, 3])):
        o = dict(opts); ne = L["ne"] if L["edim"] else 1; nt = L["nt"]
        ev.append(("f_open", {"f": "a", "path": "a.nc" if r.chance(0.99) else "b.nc", "opt": o, "ro": False}))
        if r.chance(0.5): ev.append(("f_dims", {"f": "a"}))
        if r.chance(0.5): ev.append(("f_grid", {"f": "a"}))
        if r.chance(0.3): ev.append(("f_vars", {"f": "a", "names": [r.choice(names + ["lat", "time", "Z"]) for _ in range(3)]}))
        if r.chance(0.25):
            n = r.choice([nt, nt, nt + 1 if L["unlim"] or r.chance(0.1) else nt, max(1, nt - 1), 0 if r.chance(0.2) else nt])
            ev.append(("f_settimes", {"f": "a", "x": [-999.0 if r.chance(0.02) else f32(i * 7200.0 + 256) for i in range(n)]})); nt = n
        if r.chance(0.25): ne = r.choice([1, 2, 3, ne]); ev.append(("f_setens", {"f": "a", "n": ne}))
        if nt == 0: break
        ev += file_work(r, "a", nt, ny, nx, ne, names, lev, r.randint(1, 7))
        if r.chance(0.15): ev.append(("f_setelevs", {"f": "a", "x": [[r.choice([-999.0, f32(r.uniform(0, 90))]) for _ in range(nx)] for _ in range(ny)]}))
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            wv = []
            for _ in range(r.choice([0, 1, 1, 2])):
                v = {"name": r.choice(names)}
                if r.chance(0.2): v["units"] = "mm"
                if r.chance(0.2): v["std"] = "thing"
                if r.chance(0.2) and lev: v["level"] = r.randint(0, lev - 1)
                wv.append(v)
            ev.append(("f_write", {"f": "a", "vars": wv, "msg": r.choice(["-v T", "a b", ""])}))
            if L["unlim"]: L["nt"] = max(L["nt"], nt)
            if L["edim"] == "" and ne > 1: L["edim"] = "x"; L["ne"] = ne
            # rounded to whole numbers on disk; which of several times lies on disk is not said
            if r.chance(0.4): ev += [e for e in file_work(r, "a", nt, ny, nx, ne, names, lev, r.randint(1, 4)) if (e[0] != "f_clear" or not L["whole"] and not loose) and (nt == 1 or e[1].get("v") not in loose)]
        ev += [("f_close", {"f": "a"}), ("nc_dump", {"path": "a.nc"})]
        names = names + r.choice([[], ["M"]])
        if r.chance(0.1): break
    return ev
def text_rows(r, point):
    ne = r.choice([1, 1, 2, 3]); nt = r.randint(1, 3)
    pl = [[f32(r.randint(-240, 240) / 4.0), f32(r.randint(-700, 700) / 4.0), f32(r.randint(0, 900) / 2.0)] for _ in range(1 if point else r.randint(1, 3))]
    ts = r.sample([0, 1, 2, 3600, 7200, 1000000], nt)
    rows = []
    for t in ts:
        for p in pl:
            if r.chance(0.9) or point: rows.append([float(t)] + ([] if point else list(p)) + [-999.0 if r.chance(0.1) else f32(r.randint(-400, 400) / 4.0) for _ in range(ne)])
    if not point: r.shuffle(rows)
    if r.chance(0.03) and len(rows) > 1 and not point: rows[-1] = rows[-1][:-1]
    def num(x): return "%d" % x if x == int(x) else "%.8g" % x
    s = "".join(("# note\n" if r.chance(0.1) else "") + " ".join(num(x) for x in w) + "\n" for w in rows)
    if r.chance(0.2): s = s[:-1]
    nt = len({w[0] for w in rows}); npl = len({tuple(w[1:4]) for w in rows}) if not point else 1
    return rows, s, ne, nt, npl
def case_text(r):
    point = r.chance(0.5); path = "t.txt"
    rows, s, ne, nt, ny = text_rows(r, point)
    ev = []; opt = {"type": "point" if point else "text"}
    there = r.chance(0.85)
    if there: ev.append(("w_text", {"path": path, "s": cl(s), "rows": rows}))
    if point:
        opt.update(lat=f32(r.randint(-90, 90)), lon=f32(r.randint(-360, 360)), elev=f32(r.randint(0, 50)))
        if r.chance(0.03): opt.pop(r.choice(["lat", "lon", "elev"]))
        if not there or r.chance(0.2):
            if r.chance(0.95): nt = opt["time"] = r.randint(1, 3)
            opt["ens"] = ne
    for rnd in range(r.choice([1, 2])):
        if rnd and ev[-1][0] != "t_dump": break
        if point and "time" in opt: nt = opt["time"]
        ev.append(("f_open", {"f": "a", "path": path, "opt": dict(opt), "ro": False}))
        if r.chance(0.5): ev.append(("f_dims", {"f": "a"}))
        if r.chance(0.5): ev.append(("f_grid", {"f": "a"}))
        if r.chance(0.2): nt = r.randint(1, 3); ev.append(("f_settimes", {"f": "a", "x": [float(3600 * i) for i in range(nt)]}))
        if not point and r.chance(0.2): ne = r.randint(1, 3); ev.append(("f_setens", {"f": "a", "n": ne}))
        if not nt or not ny: break
        w = file_work(r, "a", nt, ny, 1, ne, ["T", "P", "U"], 0, r.randint(1, 7))
        ev += [e for e in w if "level" not in e[1]]
        if r.chance(0.8):
            ev.append(("f_write", {"f": "a", "vars": [{"name": r.choice(["T", "P"])} for _ in range(r.choice([1, 1, 2]))], "msg": "x"}))
            if not there: opt.pop("time", 0); opt.pop("ens", 0); there = True
            ev += [("f_close", {"f": "a"}), ("t_dump", {"path": path})]
    return ev
def case_bulletin(r):
    n = r.choice([1, 1, 2, 3, 5]); nt = r.randint(1, 6) if r.chance(0.9) else r.randint(7, 60)
    if r.chance(0.05): n = r.randint(6, 40)
    a, b = sorted([r.randint(0, nt - 1), r.randint(0, nt - 1)])
    names = ["".join(r.choice("ABCDEFGHKLMNORSTVZ1") for _ in range(r.choice([1, 3, 4, 8, 11]))) for _ in range(n)]
    o = {"type": "norcomQnh", "lats": [f32(r.choice([r.randint(-90, 90), r.uniform(-90, 90)])) for _ in range(n)], "lons": [f32(r.choice([r.randint(-180, 360), r.uniform(-180, 180)])) for _ in range(n)], "elevs": [f32(r.randint(0, 2500)) for _ in range(n)],
         "names": names, "numTimes": nt, "startTime": a, "endTime": b}
    if r.chance(0.12):
        k = r.choice(["gone", "short", "lat", "lon", "order", "late", "early", "none"])
        if k == "gone": del o[r.choice(["lats", "lons", "elevs", "names", "numTimes", "startTime", "endTime"])]
        elif k == "short": q = r.choice(["lats", "lons", "elevs", "names"]); o[q] = o[q] + ["X" if q == "names" else 1.0]
        elif k == "lat": o["lats"][r.randrange(n)] = r.choice([90.5, -91.0, -999.0])
        elif k == "lon": o["lons"][r.randrange(n)] = r.choice([360.5, -361.0])
        elif k == "order": o["startTime"] = b + r.randint(1, 2)
        elif k == "late": o["endTime"] = nt + r.randint(0, 2)
        elif k == "early": o["startTime"] = -r.randint(1, 2)
        else: o["numTimes"] = 0; nt = 0
    ev = [("f_open", {"f": "a", "path": "q.txt", "opt": o, "ro": False})]
    if r.chance(0.3): ev.append(("f_grid", {"f": "a"}))
    if r.chance(0.8):
        if r.chance(0.15): nt = r.randint(1, 6)
        t0 = r.choice([0, 951696000, 951782400, 1709164800, 1735603200, r.randint(0, 2 ** 31 - 10 ** 6)]); step = r.choice([60, 1800, 3600, 3600, 10800, 21600, 86400, 59])
        ev.append(("f_settimes", {"f": "a", "x": [float(t0 + i * step) for i in range(nt)]}))
    vs = r.choice([["QNH"], ["QNH", "T"]])
    miss = r.choice([0, 0, 0.2, 0.7])
    for v in vs:
        for t in range(nt):
            if r.chance(0.03): continue
            def p():
                if r.chance(miss): return r.choice([-999.0, NAN])
                return f32(r.choice([r.uniform(95000, 104000), r.uniform(0, 120000), 100.0 * r.randint(960, 1040), 100.0 * r.randint(960, 1040) - r.choice([0.25, 1, 99])]))
            ev.append(("f_add", {"f": "a", "v": v, "t": t, "field": [[[p()] for _ in range(n)]]}))
    if nt and r.chance(0.3): ev.append(("f_poke", {"f": "a", "v": "QNH", "t": r.randint(0, nt - 1), "y": 0, "x": r.randint(0, n - 1), "e": 0, "val": f32(r.uniform(90000, 105000))}))
    if nt and r.chance(0.2): ev.append(("f_get", {"f": "a", "v": r.choice(["QNH", "N"]), "t": r.randint(0, nt - 1), "byvar": False, "skip": False}))
    w = [{"name": v} for v in r.choice([["QNH"]] * 6 + [["T", "QNH"], ["N"], [], ["QNH", "T"]])]
    return ev + [("f_write", {"f": "a", "vars": w, "msg": "x"}), ("f_close", {"f": "a"}), ("q_dump", {"path": "q.txt"})]
@check("C12")
def c12(run):
    r = rng(run)
    n = 4500 if run.quick() else 45000
    crun(run, [case_bulletin(r) for _ in range(n)])
@check("C04")
def c04(run):
    r = rng(run)
    n = 5000 if run.quick() else 50000
    crun(run, [case_nc(r) for _ in range(n)] + [case_text(r) for _ in range(n // 5)])

# ---- the program as a whole -----------------------------------------------------------------------------
def optval(v): return ",".join(optval(x) for x in v) if isinstance(v, (list, tuple)) else v if isinstance(v, str) else "1" if v is True else "0" if v is False else "%.9g" % v
def optwords(o): return ["%s=%s" % (k, optval(v)) for k, v in o.items()]
def ot(o): return [cl(w) for w in optwords(o)]
def flat(g): return [x for row in g for x in row]
def pipe_grid(r, path, ny, nx, ne, nt, names, la, lo, unlim, alt, laf, miss, phys):
    """A file with a grid of its own, fields over time, members and cells."""
    dims = [{"n": "time", "size": nt, **({"unlim": True} if unlim else {})}, {"n": "y", "size": ny}, {"n": "x", "size": nx}]
    vd = ["time", "y", "x"]
    if ne > 1 or r.chance(0.3): dims.append({"n": "ensemble_member", "size": ne}); vd = ["time", "ensemble_member", "y", "x"]
    vs = [{"n": "latitude", "dims": ["y", "x"], "data": flat(la)}, {"n": "longitude", "dims": ["y", "x"], "data": flat(lo)}, {"n": "time", "type": "d", "dims": ["time"], "data": [float(3600 * i) for i in range(nt)]}]
    if r.chance(0.6): vs.append({"n": "forecast_reference_time", "type": "d", "dims": [], "data": [f32(64.0 * r.randint(0, 9))]})
    if alt: vs.append({"n": "altitude", "dims": ["y", "x"], "data": [FILL if x == -999.0 else x for x in flat(alt)]})
    if laf: vs.append({"n": "land_area_fraction", "dims": ["y", "x"], "data": flat(laf)})
    for n in names:
        a = {}
        if r.chance(0.4): a["units"] = r.choice(["K", "mm"])
        if r.chance(0.3): a["standard_name"] = "air"
        data = []
        for _ in range(nt):
            g = cal_field(r, ny, nx, ne, phys, n, miss)
            data += [g[y][x][e] for e in range(ne) for y in range(ny) for x in range(nx)]
        vs.append({"n": n, "dims": vd, "data": [FILL if x == -999.0 else x for x in data], "atts": a})
    return ("mk_nc", {"path": path, "classic": r.chance(0.2), "dims": dims, "vars": vs, **({"atts": {"history": "before"}} if r.chance(0.3) else {})})
def par_text(ev, names=None):
    """The text of a file with the sets of ev."""
    sets = [e[1] for e in ev if e[0] == "p_set"]
    loc = any("loc" in d for d in sets); n = max([len(d["v"]) for d in sets] or [1])
    lines = [" ".join(["time"] + (["lat", "lon", "elev"] if loc else []) + ["par%d" % i for i in range(n)])]
    for d in sets: lines.append(" ".join(["%d" % d["t"]] + ["%.6f" % x for x in d.get("loc", [])] + ["%.6f" % x for x in d["v"]]))
    return "\n".join(lines) + "\n"
def coarse(x): return float(round(x * 64)) / 64.0
DOWNS = ["nearestNeighbour", "bilinear", "smart", "gradient", "upscale", "bypass", "pressure"]
def case_pipe(r):
    pairs = r.choice([1, 1, 1, 1, 2]); same = r.chance(0.2)
    nt, ne = r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 3])
    phys = r.chance(0.3)
    mk = []; files = []
    odd = pairs == 1 and r.chance(0.25)     # files in any of the layouts that can be read
    kind = r.choice(["axes", "axes", "axes", "sheared", "any"])
    atts = {}; iopt = {}; oopt = {}
    units = []
    for k in range(pairs):
        a, b = [("a.nc", "b.nc"), ("c.nc", "d.nc")][k]
        if odd:
            while True:
                L = nc_layout(r)
                if not nc_bad(L): break
            ev = L["ev"]; ev[1]["path"] = a
            if k == 0: iopt = L["opt"]
            names = L["names"]; n_t, n_e = L["nt"], L["ne"] if L["edim"] else 1
            tv = [v for v in ev[1]["vars"] if v["n"] == L["opt"].get("timeVar", "time")]; rv = [v for v in ev[1]["vars"] if v["n"] == "forecast_reference_time"]
            ref = rv[0]["data"][0] if rv else None
            times = tv[0]["data"] if tv else [ref]
            if not same or k:
                if r.chance(0.5):
                    while True:
                        M = nc_layout(r)
                        if not nc_bad(M): break
                    ev2 = M["ev"]; ev2[1]["path"] = b; oo = M["opt"]
                else: ev2 = None
        else:
            ny, nx = r.choice([1, 2, 3, 3, 4]), r.choice([1, 2, 3, 3, 4])
            la, lo = grid_of(r, ny, nx, kind)
            names = [n for n in ["T", "U", "V", "W"] if r.chance(0.8)] or ["T"]
            ev = pipe_grid(r, a, ny, nx, ne, nt, names, la, lo, r.chance(0.5), elevs_of(r, ny, nx) if r.chance(0.7) else None, lafs_of(r, ny, nx) if r.chance(0.5) else None, r.choice([0, 0, 0.1, 0.3]), phys)
            times = [v for v in ev[1]["vars"] if v["n"] == "time"][0]["data"]; rv = [v for v in ev[1]["vars"] if v["n"] == "forecast_reference_time"]; ref = rv[0]["data"][0] if rv else None
            n_t, n_e = nt, ne; ev2 = None
        mk.append(ev)
        if not same:
            if ev2 is None:
                my, mx = r.choice([1, 2, 3]), r.choice([1, 2, 3])
                if odd: bla, blo = mgrid(r, my, mx, -60, 60), mgrid(r, my, mx, -180, 180)
                else:
                    flatla, flatlo = flat(la), flat(lo); m = r.choice([0.0, 0.5, 2.0])
                    bla = [[f32(max(-89, min(89, r.uniform(min(flatla) - m, max(flatla) + m)))) for _ in range(mx)] for _ in range(my)]; blo = [[f32(r.uniform(min(flatlo) - m, max(flatlo) + m)) for _ in range(mx)] for _ in range(my)]
                    if r.chance(0.15): my, mx, bla, blo = ny, nx, la, lo
                oe, o_t = r.choice([n_e, n_e, n_e, 1, n_e + 1]), r.choice([n_t, n_t, 1, n_t + 1])
                ev2 = pipe_grid(r, b, my, mx, oe, o_t, [n for n in ["T", "U", "Q"] if r.chance(0.5)], bla, blo, r.chance(0.9), elevs_of(r, my, mx) if r.chance(0.7) else None, lafs_of(r, my, mx) if r.chance(0.5) else None, 0.1, phys and False)
                oo = {}
            if k == 0: oopt = oo
            elif [v for v in oo] or oopt: oopt = dict(oopt)
            mk.append(ev2)
        files.append((a, a if same else b, times, n_e, ref if ref is not None else times[0]))
        units.append(ev)
    inames = {v["n"]: v.get("atts", {}) for v in units[0][1]["vars"]}
    onames = {v["n"]: v.get("atts", {}) for v in (mk[0] if same else mk[1])[1]["vars"]}
    ns = [n for n in names if n in inames] or ["T"]
    # the variables
    line = [",".join(f[0] for f in files)] + optwords(iopt) + ([] if same else [",".join(f[1] for f in files)] + optwords(oopt))
    al = {}
    if r.chance(0.15):
        n = r.choice(ns); al["al"] = n; line += ["-va", "al", "name=" + n]
    blocks = []; parfiles = []
    vnames = r.sample(sorted(set(ns + ["T", "U", "N", "Q"])), r.choice([1, 1, 2, 2, 3]))
    cla, clo = [50.0, 51.0], [10.0, 11.0]
    gv = {v["n"]: v for v in (mk[0] if same else mk[1])[1]["vars"]}
    if not odd: cla, clo = gv["latitude"]["data"], gv["longitude"]["data"]
    fields_of = lambda p: {v["n"] for e in mk if e[1]["path"] == p for v in e[1]["vars"]} & set("TUVWPSQ")
    ex = set.intersection(*[fields_of(f[1]) for f in files])
    for v in vnames:
        iv = v if v in inames and r.chance(0.7) else r.choice(ns + list(al))
        made = [b["v"] for b in blocks]
        if same and made and r.chance(0.3): iv = r.choice(made)
        vo = {}
        if r.chance(0.15): vo["write"] = r.choice([0, 0, 1])
        if r.chance(0.2): vo["units"] = r.choice(["m", "kg"])
        if r.chance(0.15): vo["standardName"] = "thing"
        lim = {}
        if r.chance(0.1): lim["min"] = vo["min"] = r.choice([0.0, -5.0])
        if r.chance(0.1): lim["max"] = vo["max"] = r.choice([5.0, 1.0])
        dn = r.choice(DOWNS[:-1] if not phys else DOWNS); do = down_opt(r, dn)
        if odd or kind == "any":
            if dn == "bilinear": dn, do = "smart", down_opt(r, "smart")
            do.pop("downscaler", 0)
        giv = r.chance(0.85)
        if not giv: dn, do = "nearestNeighbour", {}
        if dn == "bypass" and r.chance(0.5): iv = v
        if "elevGradientVariable" in do: do["elevGradientVariable"] = r.choice(ns)
        w = ["-v", v] + optwords(vo); w2 = []
        if iv != v: w2 = ["-vi", iv]
        if w2 and r.chance(0.5) and (not blocks or blocks[-1]["iv"] != blocks[-1]["v"]): w, w2 = w2, w     # otherwise it belongs to the one before
        w = w + w2 + (["-d", dn] + optwords(do) if giv else [])
        cals = []
        ex.add(v)
        nc = r.choice([0, 0, 1, 1, 2, 3])
        for ic in range(nc):
            # a variable that is not there is read as missing, and is there from then on
            allnames = sorted(ex | set(ns)) if v == vnames[-1] and ic == nc - 1 else sorted(ex)
            cn = r.choice(PLAIN + PARCALS); co = pc_opt(r, cn, allnames) if cn in PARCALS else cal_opt(r, cn, allnames, []); p = ""
            if "neighbourhoodSize" in co and co["neighbourhoodSize"] < 0: co.pop("neighbourhoodSize")
            co = {k: x for k, x in co.items() if x not in ("none",)}
            cw = ["-c", cn] + optwords(co)
            if cn in PARCALS or cn in ("mask", "altitude", "override") or (cn == "neighbourhood" and r.chance(0.3)):
                p = "p%d.txt" % len(parfiles)
                if parfiles and cn in PLAIN and r.chance(0.1): p = r.choice(parfiles)[0]
                else:
                    pe = cal_par(r, cn, [cla], [clo], n_t, pc_set(r, cn, co) if cn in PARCALS else None)
                    for e in pe:
                        if e[0] == "p_set":
                            e[1]["v"] = [coarse(x) for x in e[1]["v"]]
                            if "loc" in e[1]: e[1]["loc"] = [coarse(x) for x in e[1]["loc"]]
                    parfiles.append((p, par_text(pe)))
                cw += ["-p", p, "type=text"]
            w += cw; cals.append((cn, co, p))
        blocks.append({"v": v, "iv": iv, "vo": vo, "lim": lim, "dn": dn, "do": do, "cals": cals}); line += w
    known = lambda bl: bl["iv"] in inames or bl["iv"] in al or (same and bl["iv"] in vnames[:vnames.index(bl["v"])])
    # the steps
    ev = mk + [("w_text", {"path": p, "s": cl(s)}) for p, s in parfiles]
    full = list(line)
    if r.chance(0.2): i = r.choice([0, len(full), r.randint(0, len(full))]); full[i:i] = ["--debug", r.choice(["quiet", "error", "warn", "info", "x"])]
    bad = r.chance(0.06)
    if bad:
        m = r.choice(["version", "help", "debug", "few", "drop", "file", "extra"])
        if m in ("version", "help"): full.insert(r.randint(0, len(full)), "--" + m)
        elif m == "debug": full.append("--debug")
        elif m == "few": full = full[:1]
        elif m == "drop": full.append("-c")
        elif m == "file": full[0] = "nowhere.nc"
        else: full += ["-c", "nothing"]
    args = [cl(w) for w in full]
    ev += [("plan", {"args": args}), ("cli", {"args": args})]
    paths = [e[1]["path"] for e in mk]
    ev += [("kept", {"path": p}) for p in paths]
    if bad: return ev
    ev += [e for e in mk if e[1]["path"] in [f[1] for f in files]]
    ev += [("p_new", {"p": p, "type": "text", "new": False, "opt": {"file": p}}) for p, _ in parfiles]
    for a, b, _, _, _ in files:
        ev.append(("f_open", {"f": b, "path": b, "opt": iopt if same else oopt, "ot": ot(iopt if same else oopt), "ro": False}))
        if a != b: ev.append(("f_open", {"f": a, "path": a, "opt": iopt, "ot": ot(iopt), "ro": True}))
    for a, b, times, n_e, ref in files:
        ev += [("f_settimes", {"f": b, "x": times}), ("f_setens", {"f": b, "n": n_e}), ("f_setref", {"f": b, "t": ref})]
        wv = []
        there = fields_of(b)
        for bl in blocks:
            there.add(bl["v"])
            ev.append(("f_init", {"f": b, "v": bl["v"]}))
            base = onames.get(bl["v"], inames.get(bl["v"], {}))
            iv = inames if bl["iv"] in inames else al
            ov = {"name": bl["v"], **bl["lim"]}
            ev.append(("d_run", {"name": bl["dn"], "in": a, "out": b, "iv": {"name": al.get(bl["iv"], bl["iv"]) if bl["iv"] not in inames else bl["iv"]} if known(bl) else {"name": ""}, "ov": ov, "opt": bl["do"], "ot": ot(bl["do"])}))
            for cn, co, p in bl["cals"]:
                ev.append(("c_run", {"name": cn, "f": b, "v": {"name": bl["v"]}, "opt": co, "ot": ot(co), "look": sorted(there), **({"p": p} if p else {})}))
            if bl["vo"].get("write", 1):
                u = bl["vo"].get("units", base.get("units", "")); st = bl["vo"].get("standardName", base.get("standard_name", ""))
                wv.append({"name": bl["v"], **({"units": u} if u else {}), **({"std": st} if st else {})})
        ev.append(("f_write", {"f": b, "vars": wv, "msg": " ".join(full)}))
    for a, b, _, _, _ in files: ev += [("f_close", {"f": b})] + ([("f_close", {"f": a})] if a != b else [])
    ev += [("nc_dump", {"path": p}) for p in paths]
    return ev
@check("C02")
def c02(run):
    r = rng(run)
    crun(run, [case_pipe(r) for _ in range(2000 if run.quick() else 20000)], env={"GRIDPP_CLI": build.cli(), "OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"})
