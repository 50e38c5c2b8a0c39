import math
from props import *

# ---- locations -------------------------------------------------------------------------------------
def axis(r, n, lo, hi):
    a = [r.f(lo, hi) for _ in range(n)]
    return a

class Region:
    """Part of the plane or the earth in which a session's locations lie."""
    def __init__(self, r, kind=None):
        k = kind or r.choice(["geo", "geo", "geo", "cart", "cart", "date", "pole", "globe", "small"])
        self.kind = k
        self.type = "cart" if k == "cart" else "geo"
        if k == "cart":
            s = self.s = r.choice([1.0, 1000.0, 50000.0, 10.0])
            self.lat0, self.lon0 = r.choice([0.0, 0.0, f32(5 * s), f32(-20 * s)]), r.choice([0.0, 0.0, f32(7 * s)])
            self.dlat = self.dlon = s
        elif k == "geo": self.lat0, self.lon0, self.dlat, self.dlon = r.choice([0.0, 60.0, -35.5, 10.0]), r.choice([0.0, 10.0, -70.25, 120.0]), 1.0, r.choice([1.0, 2.0])
        elif k == "date": self.lat0, self.lon0, self.dlat, self.dlon = r.choice([0.0, 65.0]), 178.0, 1.0, 1.0
        elif k == "pole": self.lat0, self.lon0, self.dlat, self.dlon = r.choice([85.0, -89.0]), -180.0, 1.0, 60.0
        elif k == "small": self.lat0, self.lon0, self.dlat, self.dlon = 59.9, 10.7, 0.01, 0.02
        else: self.lat0, self.lon0, self.dlat, self.dlon = -80.0, -180.0, 30.0, 60.0
    def lat(self, u):
        v = self.lat0 + u * self.dlat
        return f32(max(-90, min(90, v)) if self.type == "geo" else v)
    def lon(self, u):
        v = self.lon0 + u * self.dlon
        if self.kind == "date" and v > 180: v -= 360
        return f32(v)
    def unit(self):
        """Rough length of one step of the region in its distance unit."""
        return self.s if self.type == "cart" else 111000 * self.dlat
    def radius(self, r):
        return f32(self.unit() * r.choice([0, 0.3, 0.9, 1.05, 1.5, 2.2, 3.7, 20, r.random() * 4]))

def mk_points(r, reg, n, meta=True, lattice=None, extra=0.0):
    """n locations; on a lattice (with ties) or anywhere."""
    n = r.count(n); fine = 4 if r.big else 1
    lat, lon = [], []
    lattice = r.chance(0.4) if lattice is None else lattice
    for i in range(n):
        if i and r.chance(0.08):
            j = r.randint(0, i - 1); lat.append(lat[j]); lon.append(lon[j]); continue
        if lattice: lat.append(reg.lat(r.randint(0, 4 * fine) / fine)); lon.append(reg.lon(r.randint(0, 4 * fine) / fine))
        else: lat.append(reg.lat(r.uniform(-extra, 4 + extra))); lon.append(reg.lon(r.uniform(-extra, 4 + extra)))
    d = {"lats": lat, "lons": lon, "type": reg.type}
    if meta and r.chance(0.8): d["elevs"] = r.vec(n, lambda: f32(r.randint(0, 20) * 50), miss=r.choice([0, 0, 0.2]))
    if meta and r.chance(0.8): d["lafs"] = r.vec(n, lambda: f32(r.randint(0, 10) / 10), miss=r.choice([0, 0, 0.2]))
    return d

def mk_grid(r, reg, ny=None, nx=None, meta=True, shape=None, missmeta=None):
    """A grid: regular, stretched, rotated, sheared, fanned out or distorted."""
    ny = ny or r.choice([1, 2, 3, 4, 5]); nx = nx or r.choice([1, 2, 3, 4, 5])
    k = shape or r.choice(["reg", "reg", "reg", "stretch", "desc", "shear", "rot", "dist", "dup"])
    ny, nx = r.count(ny), r.count(nx)
    turned = r.chance(0.15)     # rows that follow the meridians
    if turned: ny, nx = nx, ny
    if reg.kind == "globe" and shape is None: k = "reg"
    sy = 4.0 / max(1, ny - 1) if r.big or r.chance(0.6) else 1.0; sx = 4.0 / max(1, nx - 1) if r.big or r.chance(0.6) else 1.0
    u = [y * sy for y in range(ny)]; v = [x * sx for x in range(nx)]
    if k == "stretch": u = [a + 0.3 * r.random() * sy for a in u]; v = [a + 0.3 * r.random() * sx for a in v]
    if k == "desc": u = u[::-1]
    if k == "desc" and r.chance(0.5): v = v[::-1]
    if k == "dup" and ny > 1: u[1] = u[0]
    lats = [[0] * nx for _ in range(ny)]; lons = [[0] * nx for _ in range(ny)]
    a = r.uniform(-0.6, 0.6) if k == "rot" or (k == "fan" and r.chance(0.3)) else 0
    sh = r.uniform(-0.5, 0.5) if k == "shear" else 0
    fan = r.choice([0.125, 0.25, 0.5, -0.125, -0.25]) if k == "fan" else 0      # rows of differing lengths
    for y in range(ny):
        for x in range(nx):
            p, q = u[y], v[x] + sh * u[y]
            if k == "rot": p, q = p * math.cos(a) - q * math.sin(a), p * math.sin(a) + q * math.cos(a)
            if k == "fan":
                p, q = (p, q * (1 + fan * y)) if fan > 0 else (p * (1 - fan * x), q)
                p, q = p * math.cos(a) - q * math.sin(a), p * math.sin(a) + q * math.cos(a)
            if k == "dist": p += r.uniform(-0.08, 0.08) * sy; q += r.uniform(-0.08, 0.08) * sx
            lats[y][x] = reg.lat(p); lons[y][x] = reg.lon(q)
    if turned:
        lats, lons = [list(z) for z in zip(*lats)], [list(z) for z in zip(*lons)]
        ny, nx = nx, ny
    d = {"lats": lats, "lons": lons, "type": reg.type}
    mm = r.choice([0, 0, 0.2]) if missmeta is None else missmeta
    if meta and r.chance(0.8): d["elevs"] = r.vec2(ny, nx, lambda: f32(r.randint(0, 20) * 50), miss=mm)
    if meta and r.chance(0.8): d["lafs"] = r.vec2(ny, nx, lambda: f32(r.randint(0, 10) / 10), miss=mm)
    return d

def a_query(r, reg, d, grid):
    """A query location: at a location of the object, between, or somewhere."""
    c = r.random()
    flat = [x for y in d["lats"] for x in y] if grid else d["lats"]
    flon = [x for y in d["lons"] for x in y] if grid else d["lons"]
    if flat and c < 0.35:
        i = r.randint(0, len(flat) - 1); return flat[i], flon[i]
    if flat and c < 0.5:
        i = r.randint(0, len(flat) - 1); j = r.randint(0, len(flat) - 1)
        return f32((flat[i] + flat[j]) / 2), f32((flon[i] + flon[j]) / 2)
    if reg.type == "geo" and c < 0.55: return f32(r.uniform(-90, 90)), f32(r.uniform(-180, 360))
    if reg.type == "geo" and flon and c < 0.6:
        i = r.randint(0, len(flat) - 1); return flat[i], f32(flon[i] + r.choice([360, -360]))
    return reg.lat(r.uniform(-1, 5)), reg.lon(r.uniform(-1, 5))

def q_event(r, reg, d, grid, id):
    lat, lon = a_query(r, reg, d, grid)
    if r.chance(0.02): lat = r.choice([NAN, 91.0, INF, -100.0])
    if r.chance(0.01): lon = r.choice([NAN, INF])
    q = r.choice(["nearest", "nearest", "closest", "closest", "radius", "radius", "count", "radiusd"])
    e = {"id": id, "q": q, "lat": lat, "lon": lon, "match": r.chance(0.6)}
    n = (len(d["lats"]) * len(d["lats"][0]) if d["lats"] else 0) if grid else len(d["lats"])
    if q == "closest": e["num"] = r.choice([1, 2, 3, 4, n, n + 1, max(1, n - 1)])
    if q in ("radius", "count", "radiusd"): e["radius"] = reg.radius(r)
    if q in ("radius", "count", "radiusd") and r.chance(0.02): e["radius"] = r.choice([-1.0, NAN])
    if e.get("num", 1) < 1: e["num"] = 1
    return ("query", e)

def case_search(r):
    reg = Region(r)
    kind = r.choice(["grid", "points", "tree"])
    n = r.choice([0, 1, 2, 3, 5, 9, 20])
    if kind == "grid":
        d = mk_grid(r, reg, meta=False)
        if r.chance(0.03): d = {"lats": [], "lons": [], "type": "geo"}; reg = Region(r, "geo")
    else: d = mk_points(r, reg, n, meta=False)
    ev = [("mk_" + kind, {"id": "a", "def": d})]
    for _ in range(r.randint(3, 8)):
        if kind == "grid" and r.chance(0.4):
            lat, lon = a_query(r, reg, d, True)
            ev.append(("get_box", {"id": "a", "lat": lat, "lon": lon}))
        else: ev.append(q_event(r, reg, d, kind == "grid", "a"))
    if r.chance(0.3):
        for op in ("calc_distance", "calc_distance_fast"):
            a, b = a_query(r, reg, d, kind == "grid"), a_query(r, reg, d, kind == "grid")
            ev.append((op, {"lat1": a[0], "lon1": a[1], "lat2": b[0], "lon2": b[1], "type": reg.type}))
    if r.chance(0.1):
        p = mk_points(r, reg, 5, meta=False); 
        if r.chance(0.2): p["lats"][r.randint(0, 4)] = r.choice([NAN, 95.0])
        ev.append(("convert_coordinates", p))
    return ev

@check("G01")
def g01(run):
    r = rng(run)
    n = 12000 if run.quick() else 60000
    run.sessions([case_search(r) for _ in range(n)] + r.larger(case_search, n // 100, 12), opts={"thr": 1})

# ---- histories of objects ---------------------------------------------------------------------------------
import re, vf
def histories(run, module, consts, depth, invs="TypeOK Out", simulate=0, seed=1, tmo=800):
    """Histories of the generator specification: all of that length, or a number of random ones."""
    cfg = consts + "\nCONSTANT Depth = %d\nINIT Init\nNEXT Next\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (depth, invs)
    extra = ["-simulate", "num=%d" % simulate, "-depth", str(depth + 1), "-seed", str(seed)] if simulate else []
    rc, out = vf.tlc(module, cfg, extra=extra, workers=1 if simulate else 8, tmo=tmo)
    if "Error:" in out or (rc != 0 and not simulate): raise vf.SpecError(module + "\n" + out[-2000:])
    hs = [l[1:-1].replace('\\"', '"') if l.startswith('"') else l for l in out.splitlines()]
    hs = sorted(set(l for l in hs if l.startswith("H<<")))
    gen, dist = vf.counts(out)
    run.add(dist, gen)
    run.cov.setdefault("generated_histories", {})["%s depth %d%s" % (module, depth, " simulated" if simulate else " all")] = len(hs)
    return [[re.findall(r'"([^"]*)"', s) for s in re.findall(r"<<([^<>]*)>>", l)] for l in hs]

def realise(r, h):
    """A history of names as operations with data."""
    reg = Region(r)
    ev, kind, defs, size = [], {}, {}, {}
    def sz(d, k): return len(d["lats"]) * (len(d["lats"][0]) if k == "grid" and d["lats"] else 1)
    def probe(n):
        k = kind[n]
        c = r.random()
        if c < 0.4: return ("get", {"id": n})
        if k != "tree" and c < 0.6:
            return ("get_point", {"id": n, "y": r.choice([0, 1, 2, -1]), "x": r.choice([0, 1, 2, -1] if r.chance(0.3) else [0, 1])})
        if k == "grid" and c < 0.8: return ("get_box", {"id": n, "lat": reg.lat(r.uniform(0, 4)), "lon": reg.lon(r.uniform(0, 4))})
        e = {"id": n, "q": r.choice(["nearest", "closest", "radius", "count", "radiusd"]), "lat": reg.lat(r.uniform(-1, 5)), "lon": reg.lon(r.randint(0, 4)), "match": r.chance(0.7), "num": r.choice([1, 2, 3]), "radius": reg.radius(r)}
        return ("query", e)
    for st in h:
        op, n, a = st[0], st[1], st[2:]
        if op.startswith("mk_") and op != "mk_points_from_tree":
            k = op[3:]
            m = r.choice([0, 1, 2, 3, 5])
            d = (mk_grid(r, reg, ny=r.choice([1, 2, 3]), nx=r.choice([1, 2, 3])) if r.chance(0.95) else {"lats": [], "lons": [], "type": "geo"}) if k == "grid" else mk_points(r, reg, m, meta=k == "points")
            ev.append((op, {"id": n, "def": d})); kind[n] = k; size[n] = sz(d, k)
        elif op == "mk_points_from_tree":
            m = size[a[0]]
            ev.append((op, {"id": n, "tree": a[0], "elevs": r.vec(m, miss=0) if r.chance(0.6) else [], "lafs": r.vec(m, lambda: r.f(0, 1), miss=0) if r.chance(0.6) else []}))
            kind[n] = "points"; size[n] = m
        elif op in ("copy", "assign"): ev.append((op, {"id": n, "from": a[0]})); kind[n] = kind[a[0]]; size[n] = size[a[0]]
        elif op == "del": ev.append((op, {"id": n})); kind.pop(n)
        elif op == "to_points": ev.append((op, {"id": n, "from": a[0]})); kind[n] = "points"; size[n] = size[a[0]]
        elif op == "subset":
            m = size[a[0]]
            ix = [r.randint(0, m - 1) for _ in range(r.choice([0, 1, 2, 4]))] if m else []
            ev.append((op, {"id": n, "from": a[0], "indices": ix})); kind[n] = "points"; size[n] = len(ix)
        elif op == "in_domain":
            ev.append((op, {"id": n, "from": a[0], "grid": a[1]})); kind[n] = "points"; size[n] = -1
            # how many it selects the specification knows; nothing later may depend on it
        elif op == "probe": ev.append(probe(n))
    for n in kind:
        ev.append(("get", {"id": n})); ev.append(probe(n))
    return ev
def usable(h):
    """No index into a point set whose size only the execution shows."""
    un = set()
    for st in h:
        op, n, a = st[0], st[1], st[2:]
        if op == "in_domain": un.add(n)
        elif op in ("copy", "assign"): (un.add if a[0] in un else un.discard)(n)
        elif op == "subset":
            if a[0] in un: return False
            un.discard(n)
        elif op in ("mk_grid", "mk_points", "mk_tree", "mk_points_from_tree", "to_points", "del"): un.discard(n)
    return True
@check("G02")
def g02(run):
    r = rng(run)
    consts = 'CONSTANT Names = {"a", "b", "c"}'
    hs = histories(run, "ObjectsGen", consts, 4)
    if not run.quick():
        h5 = histories(run, "ObjectsGen", consts, 5)
        hs += r.sample(h5, 100000)
    hs += histories(run, "ObjectsGen", consts, 14, simulate=600 if run.quick() else 10000, seed=run.seed)
    run.sessions([realise(r, h) for h in hs if usable(h)], opts={"thr": 1})
