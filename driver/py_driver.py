"""Executes operations through the Python module; same protocol as api_main.cpp.
The arguments' arrays are handed over in layouts, numeric types and containers drawn from a seed."""
import sys, os, re, json, math, random, glob
sys.path.insert(0, sys.argv[1])
import numpy as np
import gridpp

HERE = os.path.dirname(os.path.abspath(__file__))
TABLE = {}
for f in sorted(glob.glob(os.path.join(HERE, "api_ops*.cpp"))):
    for m in re.finditer(r'reg\("(\w+)", SIG\(([^)]*)\)\s*&gridpp::(\w+),\s*\{([^}]*)\}\)', open(f).read()):
        ts = [re.sub(r"const|&|\s", "", t) for t in m.group(2).split(",")]
        TABLE[m.group(1)] = (ts[0], ts[1:], m.group(3), re.findall(r'"(\w+)"', m.group(4)))
# The module has these under other circumstances or not at all
DIMS = {"vec": 1, "vec2": 2, "vec3": 3, "ivec": 1, "ivec2": 2, "ivec3": 3}

class Unsupported(Exception): pass

def num(x):
    return {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}[x] if isinstance(x, str) else x
def nums(x):
    return [nums(v) for v in x] if isinstance(x, list) else num(x)

def base(x, nd, integer):
    x = nums(x)
    s = []
    y = x
    for k in range(nd):
        s.append(len(y)); y = y[0] if len(y) else []
    a = np.array(x, dtype=np.int32 if integer else np.float32)
    if a.ndim != nd: a = a.reshape(s)
    return a

kept = []       # (what was handed over, a copy of it)
dts = []
def lay(r, a, integer):
    """The array a in some other form."""
    how = r.choice(["plain", "plain", "f", "t", "step", "neg", "ro", "list", "tuple", "vector", "unaligned", "sub", "mixed"])
    if integer: t = r.choice([np.int32, np.int32, np.int64, np.int16, ">i4"])
    else:
        t = r.choice([np.float32, np.float32, np.float64, np.float64, ">f4", ">f8", np.longdouble])
        if a.size and np.all(np.isfinite(a)) and np.all(a == np.round(a)) and np.all(np.abs(a) < 30000) and not np.any((a == 0) & np.signbit(a)):
            t = r.choice([t, np.int32, np.int64, np.int16, np.float16 if np.all(np.abs(a) < 2000) else np.int32, ">i4", np.uint16 if np.all(a >= 0) else np.int32])
    if how in ("list", "tuple", "mixed", "vector") and a.size == 0: how = "plain"
    if how in ("list", "tuple", "mixed"):
        l = a.tolist()
        if how == "mixed" and not integer: l = mixed(r, l)
        if how == "tuple": l = tup(l)
        return l
    if how == "vector":
        if integer: return (gridpp.IntVector, gridpp.IntVector2)[a.ndim - 1](a.tolist()) if a.ndim <= 2 else a.tolist()
        return (gridpp.FloatVector, gridpp.FloatVector2, gridpp.FloatVector3)[a.ndim - 1](a.tolist())
    b = a.astype(t)
    if how == "f": b = np.asfortranarray(b)
    elif how == "t": b = np.ascontiguousarray(b.T).T
    elif how == "step":
        big = np.full([2 * n + 1 for n in b.shape], 77, dtype=b.dtype)
        v = big[tuple(slice(1, None, 2) for _ in b.shape)]
        v[...] = b; b = v
    elif how == "neg":
        f = tuple(slice(None, None, -1) for _ in b.shape)
        b = np.ascontiguousarray(b[f])[f]
    elif how == "sub":
        big = np.full([n + 3 for n in b.shape], 55, dtype=b.dtype)
        v = big[tuple(slice(1, 1 + n) for n in b.shape)]
        v[...] = b; b = v
    elif how == "unaligned":
        raw = np.zeros(b.nbytes + 1, dtype=np.uint8)
        v = np.frombuffer(raw.data, dtype=b.dtype, count=b.size, offset=1).reshape(b.shape) if b.size else b
        if b.size:
            raw[1:] = np.frombuffer(np.ascontiguousarray(b).tobytes(), dtype=np.uint8)
            b = v
    elif how == "ro":
        b = b.copy(); b.flags.writeable = False
    return b
def mixed(r, l):
    if isinstance(l, list): return [mixed(r, v) for v in l]
    if l == l and abs(l) < 1e6 and l == int(l) and r.random() < 0.5 and not (l == 0 and math.copysign(1, l) < 0): return int(l)
    return np.float64(l) if r.random() < 0.3 else l
def tup(l): return tuple(tup(v) for v in l) if isinstance(l, list) else l
def plain(x):
    if isinstance(x, np.ndarray): return x.copy()
    if isinstance(x, (list, tuple)): return [plain(v) for v in x]
    if isinstance(x, (gridpp.FloatVector, gridpp.IntVector, gridpp.FloatVector2, gridpp.IntVector2, gridpp.FloatVector3)): return [plain(v) for v in x]
    return x
def same(a, b):
    if isinstance(a, np.ndarray): return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)

def array(r, x, t):
    integer = t.startswith("i")
    if not isinstance(x, list): raise Unsupported()
    v = lay(r, base(x, DIMS[t], integer), integer)
    kept.append((v, plain(v)))
    return v

store = {}
structs = {}
def ctype(s): return gridpp.Cartesian if s == "cart" else gridpp.Geodetic
def mk(r, d, cls, t):
    a = [array(r, d["lats"], t), array(r, d["lons"], t)]
    if "elevs" in d or "lafs" in d or "type" in d:
        a.append(array(r, d.get("elevs", []), t) if d.get("elevs") else np.zeros((0,) * DIMS[t], np.float32))
        a.append(array(r, d.get("lafs", []), t) if d.get("lafs") else np.zeros((0,) * DIMS[t], np.float32))
    if "type" in d: a.append(ctype(d["type"]))
    return cls(*a)
def get_geo(r, j, cls, t):
    if isinstance(j, str): o = store[j]
    elif "ref" in j: o = store[j["ref"]]
    else: return mk(r, j, cls, t)
    if not isinstance(o, cls): raise KeyError("another kind")
    return o
def struct(r, j):
    if isinstance(j, str): return structs[j]
    if "ref" in j: return structs[j["ref"]]
    k = j["kind"]
    if k == "Multiple": return gridpp.MultipleStructure(struct(r, j["sh"]), struct(r, j["sv"]), struct(r, j["sw"]))
    if k == "CrossValidation": return gridpp.CrossValidation(struct(r, j["s"]), num(j["dist"]))
    if "clone" in j: return struct(r, {a: b for a, b in j.items() if a != "clone"}).clone()
    if "grid" in j:
        a = [get_geo(r, j["grid"], gridpp.Grid, "vec2")] + [array(r, j[x], "vec2") for x in "hvw"]
        if "minrho" in j: a.append(num(j["minrho"]))
        return getattr(gridpp, k + "Structure")(*a)
    a = [num(j[x]) for x in "hvw"]
    if k != "Cressman" and "hmax" in j: a.append(num(j["hmax"]))
    return getattr(gridpp, k + "Structure")(*a)
def arg(r, j, t):
    if t in DIMS: return array(r, j, t)
    if t == "Grid": return get_geo(r, j, gridpp.Grid, "vec2")
    if t == "Points": return get_geo(r, j, gridpp.Points, "vec")
    if t == "StructureFunction": return struct(r, j)
    if t == "float": return r.choice([float, np.float64])(num(j))
    if t == "int": return int(num(j))
    if t == "bool": return bool(j)
    if t in ("Statistic", "Extrapolation", "Metric", "GradientType", "Downscaler", "ComparisonOperator"):
        return 12345 if j == "Bad" else getattr(gridpp, j)
    raise Unsupported()

def out(v, t):
    if t in DIMS:
        if not isinstance(v, np.ndarray) or v.ndim != DIMS[t]: dts.append("not an array of %d dimensions" % DIMS[t])
        else: dts.append(v.dtype.name)
        return v.tolist() if isinstance(v, np.ndarray) else v
    if t == "float": return float(v)
    return v
def vec(v): return out(v, "vec")
def ivec(v): return out(v, "ivec")

def describe(o):
    if isinstance(o, gridpp.Point):
        return {"lat": o.lat, "lon": o.lon, "elev": o.elev, "laf": o.laf, "type": "cart" if o.type == gridpp.Cartesian else "geo", "xyz": [o.x, o.y, o.z]}
    g = isinstance(o, gridpp.Grid); t = "vec2" if g else "vec"
    d = {"kind": "grid" if g else "points" if isinstance(o, gridpp.Points) else "tree", "size": out(o.size(), "ivec") if g else o.size(), "lats": out(o.get_lats(), t), "lons": out(o.get_lons(), t)}
    if d["kind"] != "tree": d["elevs"] = out(o.get_elevs(), t); d["lafs"] = out(o.get_lafs(), t)
    d["type"] = "cart" if o.get_coordinate_type() == gridpp.Cartesian else "geo"
    return d

def query(g, i):
    q = i["q"]; lat, lon = num(i["lat"]), num(i["lon"]); m = i.get("match", True)
    k = "ivec2" if isinstance(g, gridpp.Grid) else "ivec"
    if q == "nearest":
        v = g.get_nearest_neighbour(lat, lon, m)
        return out(v, "ivec") if isinstance(g, gridpp.Grid) else v
    if q == "closest": return out(g.get_closest_neighbours(lat, lon, i["num"], m), k)
    if q == "radius": return out(g.get_neighbours(lat, lon, num(i["radius"]), m), k)
    if q == "count": return g.get_num_neighbours(lat, lon, num(i["radius"]), m)
    if q == "radiusd":
        v, d = g.get_neighbours_with_distance(lat, lon, num(i["radius"]), m)
        return {"i": out(v, k), "d": vec(d)}
    raise Unsupported()

def pair(f, a): 
    x, y = f(*a)
    return x, y
def own(r, op, i):
    if op == "mk_grid": store[i["id"]] = mk(r, i["def"], gridpp.Grid, "vec2"); return describe(store[i["id"]])
    if op == "mk_points": store[i["id"]] = mk(r, i["def"], gridpp.Points, "vec"); return describe(store[i["id"]])
    if op == "mk_tree":
        d = i["def"]; store[i["id"]] = gridpp.KDTree(array(r, d["lats"], "vec"), array(r, d["lons"], "vec"), ctype(d["type"])); return describe(store[i["id"]])
    if op == "get": return describe(store[i["id"]])
    if op == "del": store.pop(i["id"], None); return True
    if op == "to_points": store[i["id"]] = store[i["from"]].to_points(); return describe(store[i["id"]])
    if op == "subset": store[i["id"]] = store[i["from"]].subset(array(r, i["indices"], "ivec")); return describe(store[i["id"]])
    if op == "in_domain":
        p, g = store[i["from"]], store[i["grid"]]
        x = ivec(p.get_in_domain_indices(g)); store[i["id"]] = p.get_in_domain(g)
        return {"indices": x, "points": describe(store[i["id"]])}
    if op == "get_point":
        o = store[i["id"]]
        return describe(o.get_point(i["y"], i["x"]) if isinstance(o, gridpp.Grid) else o.get_point(i["y"]))
    if op == "query": return query(store[i["id"]], i)
    if op == "get_box":
        f, a, b, c, d = store[i["id"]].get_box(num(i["lat"]), num(i["lon"]))
        return {"found": bool(f), "box": [a, b, c, d] if f else [-1, -1, -1, -1]}
    if op == "calc_distance": return gridpp.KDTree_calc_distance(num(i["lat1"]), num(i["lon1"]), num(i["lat2"]), num(i["lon2"]), ctype(i["type"]))
    if op == "calc_distance_fast": return gridpp.KDTree_calc_distance_fast(num(i["lat1"]), num(i["lon1"]), num(i["lat2"]), num(i["lon2"]), ctype(i["type"]))
    if op == "mk_struct": structs[i["id"]] = struct(r, i["def"]); return True
    if op == "struct_clone": structs[i["id"]] = structs[i["from"]].clone(); return True
    if op == "struct_del": structs.pop(i["id"], None); return True
    if op == "quantile_mapping_curve":
        a, b = gridpp.quantile_mapping_curve(array(r, i["ref"], "vec"), array(r, i["fcst"], "vec"), array(r, i["quantiles"], "vec")); return {"ref": vec(a), "fcst": vec(b)}
    if op == "monotonize_curve":
        a, b = gridpp.monotonize_curve(array(r, i["ref"], "vec"), array(r, i["fcst"], "vec")); return {"ref": vec(a), "fcst": vec(b)}
    if op == "metric_optimizer_curve":
        a, b = gridpp.metric_optimizer_curve(array(r, i["ref"], "vec"), array(r, i["fcst"], "vec"), array(r, i["thresholds"], "vec"), arg(r, i["metric"], "Metric")); return {"ref": vec(a), "fcst": vec(b)}
    if op in ("oif_g", "oif_p"):
        g = op == "oif_g"; t = "vec2" if g else "vec"
        a, v = gridpp.optimal_interpolation_full(arg(r, i["bgrid"], "Grid" if g else "Points"), array(r, i["x"], t), array(r, i["bvar"], t), arg(r, i["points"], "Points"), array(r, i["obs"], "vec"),
            array(r, i["ovar"], "vec"), array(r, i["pbg"], "vec"), array(r, i["pbvar"], "vec"), struct(r, i["structure"]), i["max_points"], i["extrap"])
        return {"an": out(a, t), "av": out(v, t)}
    if op == "ldc":
        t = "vec2" if i["nt"] == 1 else "vec"
        return out(gridpp.local_distribution_correction(arg(r, i["bgrid"], "Grid"), array(r, i["x"], "vec2"), arg(r, i["points"], "Points"), array(r, i["obs"], t), array(r, i["pbg"], t),
            struct(r, i["structure"]), num(i["minq"]), num(i["maxq"]), i["min_points"]), "vec2")
    if op in ("transform", "transform_roundtrip"):
        d = i["t"]; k = d["kind"]
        t = getattr(gridpp, k)(*[num(d[x]) for x in {"BoxCox": ["p"], "StartedBoxCox": ["p", "q"], "Gamma": ["p", "q", "tol"]}.get(k, [])])
        if op == "transform":
            f = t.forward if i["dir"] == "forward" else t.backward
            ty = ["float", "vec", "vec2", "vec3"][i["dim"]]
            return out(f(arg(r, i["x"], ty)), ty)
        f = t.forward(array(r, i["x"], "vec"))
        return {"f": vec(f), "b": vec(t.backward(f)), "b2": vec(t.backward(array(r, i["x"], "vec"))), "f2": vec(t.forward(t.backward(array(r, i["x"], "vec"))))}
    raise Unsupported()
OWN = {"mk_grid", "mk_points", "mk_tree", "get", "del", "to_points", "subset", "in_domain", "get_point", "query", "get_box", "calc_distance", "calc_distance_fast", "mk_struct", "struct_clone", "struct_del",
       "quantile_mapping_curve", "monotonize_curve", "metric_optimizer_curve", "oif_g", "oif_p", "ldc", "transform", "transform_roundtrip"}

def enc(x):
    if x is True: return "true"
    if x is False: return "false"
    if isinstance(x, (list, tuple)): return "[" + ",".join(enc(v) for v in x) + "]"
    if isinstance(x, dict): return "{" + ",".join(json.dumps(k) + ":" + enc(v) for k, v in x.items()) + "}"
    if isinstance(x, str): return json.dumps(x)
    if isinstance(x, (int, np.integer)): return str(int(x))
    x = float(x)
    if x != x: return '"nan"'
    if math.isinf(x): return '"inf"' if x > 0 else '"-inf"'
    return repr(x)

def main():
    o = os.fdopen(os.dup(1), "w")
    os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
    seed = 0
    for line in sys.stdin:
        c = json.loads(line)
        op = c["op"]
        if op == "reset":
            store.clear(); structs.clear(); seed = 0
            r = random.Random(c.get("thr", 1))
            o.write('{"r":"ok","out":true}\n'); o.flush()
            continue
        i = c["in"]
        r = random.Random(line)
        del kept[:]; del dts[:]
        try:
            if op in OWN: v = own(r, op, i)
            elif op in TABLE:
                t, ts, name, names = TABLE[op]
                v = out(getattr(gridpp, name)(*[arg(r, i[n], ty) for n, ty in zip(names, ts)]), t)
            else:
                sys.stderr.write("unknown operation " + op); o.flush(); os._exit(4)
            res = '"r":"ok","out":' + enc(v)
        except Unsupported:
            sys.stderr.write("cannot execute " + op); o.flush(); os._exit(4)
        except (ValueError, RuntimeError, TypeError, IndexError, KeyError, OverflowError, AttributeError) as e:
            if isinstance(e, KeyError) and op not in OWN and not (e.args and e.args[0] in ("another kind",)) and False: raise
            res = '"r":"err","msg":' + json.dumps(type(e).__name__ + ": " + str(e)[:200])
        k = all(same(plain(a), b) for a, b in kept)
        o.write("{" + res + ',"kept":' + enc(k) + ',"dtypes":' + enc(sorted(set(dts))) + "}\n")
        o.flush()
main()
