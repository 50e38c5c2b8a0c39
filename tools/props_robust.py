"""G26: unusable arguments, under bounds checking."""
import copy
from props import check, rng, NOTES
from gen import R, NAN, INF, f32
import props_fields as PF, props_geo as PG, props_down as PD, props_curve as PC, props_assim as PA

CASES = [PF.case_window, PF.case_nb, PF.case_nq, PF.case_util, PG.case_search, PD.case_nearest, PD.case_bilinear, PD.case_gradient, PD.case_struct,
         PD.case_static, PD.case_smart, PD.case_search_nb, PD.case_calc_gradient, PD.case_gridding, PD.case_fill, PD.case_prob, PC.case_apply, PC.case_qm, PC.case_mono,
         PC.case_score, PC.case_nscore, PC.case_transform, PC.case_diag, PA.case_oi, PA.case_limits, PA.case_ensi, PA.case_multi, PA.case_gamma, PA.case_ldc]
ENUMS = {"stat": "Unknown", "d": "Bad", "cmp": "Bad", "metric": "Bad", "below": "Bad", "above": "Bad", "gt": "Bad"}

META = ("kind", "id", "type", "nt", "fk", "tk", "k", "dim", "q0", "ref", "clone", "dir", "to_")
def paths(x, p=()):
    """Every place of an argument that can be altered: (path, kind); an array is one place, and so are its corner values."""
    out = []
    if isinstance(x, dict):
        for k, v in x.items():
            if k not in META: out += paths(v, p + (k,))
    elif isinstance(x, list) and is_array(x):
        out.append((p, "list"))
        def leaves(y, q):
            if not isinstance(y, list): return paths(y, q)
            return [l for i in sorted({0, len(y) - 1}) if 0 <= i < len(y) for l in leaves(y[i], q + (i,))]
        out += leaves(x, p)
    elif isinstance(x, list):
        for i in range(len(x)): out += paths(x[i], p + (i,))
    elif isinstance(x, bool): out.append((p, "bool"))
    elif isinstance(x, int): out.append((p, "int"))
    elif isinstance(x, float): out.append((p, "float"))
    elif isinstance(x, str) and p and p[-1] in ENUMS: out.append((p, "enum"))
    return out
def is_array(x): return all(is_array(v) if isinstance(v, list) else isinstance(v, (int, float)) for v in x)
def along(x, axis, f): return f(x) if axis == 0 else [along(v, axis - 1, f) for v in x]
def depth(x): return 1 + max([depth(v) for v in x] + [0]) if isinstance(x, list) else 0
def get(x, p):
    for k in p: x = x[k]
    return x
def put(x, p, v):
    for k in p[:-1]: x = x[k]
    x[p[-1]] = v
def all_missing(x): return [all_missing(v) for v in x] if isinstance(x, list) else (NAN if isinstance(x, float) else x)

def mutate(r, arg):
    ps = [q for q in paths(arg) if q[0]]
    if not ps: return None
    # lists first: sizes are what most often goes wrong
    byk = {}
    for q in ps: byk.setdefault(q[1], []).append(q)
    kind = r.choice([k for k in byk for _ in range(4 if k == "list" else 2 if k == "int" else 1)])
    # one argument of several, however many places it has
    key = r.choice(sorted(set(q[0][0] for q in byk[kind])))
    p, _ = r.choice([q for q in byk[kind] if q[0][0] == key])
    a = copy.deepcopy(arg)
    v = get(a, p)
    names = [k for k in p if isinstance(k, str)]
    if kind == "list":
        how = r.choice(["drop", "drop", "add", "add", "empty", "missing", "first"])
        axis = r.randrange(depth(v)) if v else 0
        if how == "missing" and names[-1] in ("h", "v", "w"): return None
        if how == "missing": n = all_missing(v)
        else: n = along(v, axis, {"drop": lambda y: y[:-1], "first": lambda y: y[1:], "add": lambda y: y + copy.deepcopy(y[-1:]), "empty": lambda y: []}[how])
        if n == v: return None
    elif kind == "int": n = r.choice([-1, 0, -1000, 1, v + 1, 100000])
    elif kind == "float":
        n = r.choice([NAN, INF, -INF, -1.0, 0.0, 1e9, -v, f32(-1e-6)])
        if p[0] in ("lat", "lon", "lat1", "lat2", "lon1", "lon2") or names[-1] in ("lat", "lon", "lats", "lons"):
            if n == 1e9: n = f32(1e4)
        if names[-1] in ("h", "v", "w", "hmax", "dist") and n in (INF, -INF, 1e9): n = NAN
        if names[-1] in ("h", "v", "w") and isinstance(p[-1], int) and n != n: return None
    elif kind == "bool": n = not v
    else: n = ENUMS[p[-1]]
    put(a, p, n)
    return a

def case_bad(r, f=None):
    s = (f or r.choice(CASES))(r)
    opts = {}
    if isinstance(s, tuple): opts, s = s
    s = list(s)
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.randrange(len(s))
        # objects are made at the head: prefer the operations
        if s[k][0].startswith("mk_") and r.chance(0.6): k = len(s) - 1
        m = mutate(r, s[k][1])
        if m is not None: s[k] = (s[k][0], m)
    return s

NOTES["G26"] = ("TLA+ trace checking (TLC) of altered calls, executed under AddressSanitizer with bounds-checked containers: sizes, counts, radii, levels, options and coordinates are made inconsistent, empty, missing, negative or huge; the specification says which calls must raise an error", None)
@check("G26")
def g26(run):
    r = rng(run)
    n = 8000 if run.quick() else 80000
    # every kind of operation, altered, and as the other checks call it
    run.sessions([case_bad(r, CASES[k % len(CASES)]) for k in range(n)], opts={"thr": 2}, variant="asan", env=ASAN, label="altered")
    run.sessions([plain(CASES[k % len(CASES)](r)) for k in range(n // 3)], opts={"thr": 2}, variant="asan", env=ASAN, label="plain")
    run.assumptions.append("arrays are rectangular; memory errors are those AddressSanitizer and bounds-checked containers notice")
def plain(s): return s[1] if isinstance(s, tuple) else s
import os
ASAN = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0")
