"""G27: the Python module."""
import json, os, re
import build, vf
from props import check, rng, NOTES
import props_fields as PF, props_geo as PG, props_down as PD, props_curve as PC, props_assim as PA
from props_robust import CASES

def supported():
    d = os.path.join(build.VERIF, "driver")
    ops = set()
    for f in os.listdir(d):
        if f.startswith("api_ops"):
            ops |= set(re.findall(r'reg\("(\w+)", SIG', open(os.path.join(d, f)).read()))
    own = re.search(r"^OWN = \{(.*?)\}", open(os.path.join(d, "py_driver.py")).read(), re.M | re.S).group(1)
    return ops | set(re.findall(r'"(\w+)"', own))

def even(x):
    """No array in it has rows of different lengths (NumPy has no such arrays)."""
    if isinstance(x, dict): return all(even(v) for v in x.values())
    if not isinstance(x, list): return True
    return all(even(v) for v in x) and len({shape(v) for v in x}) <= 1
def shape(x): return (len(x),) + shape(x[0]) if isinstance(x, list) and x else (0,) if isinstance(x, list) else ()

def gen(r, n):
    ok = supported()
    out = []
    while len(out) < n:
        s = CASES[len(out) % len(CASES)](r)
        if isinstance(s, tuple): s = s[1]
        s = [x for x in s if "RandomChoice" not in json.dumps(x[1])]
        if s and all(op in ok and even(i) for op, i in s): out.append(list(s))
        elif r.random() < 0.05: out.append([("window", {"x": [[1.0, 2.0]], "length": 1, "stat": "Mean", "before": False, "keep": False, "edges": False})])
    return out

def with_native(run, sessions, cmd, env, label):
    """Sessions executed by both; the library's own outcome goes along with that of the module."""
    nat = vf.execute([build.driver()], [({"thr": 2}, s) for s in sessions])
    def post(res):
        out = []
        for a, b in zip(res, nat):
            m = []
            for k, x in enumerate(a):
                n = b[k] if k < len(b) else '{"r":"none"}'
                m.append(x[:-1] + ',"nat":' + n + "}")
            out.append(m)
        return out
    return run.sessions([({"thr": 2}, s) for s in sessions], cmd=cmd, module="PythonTrace", env=env, label=label, post=post)

@check("G27")
def g27(run):
    q = run.quick()
    r = rng(run)
    mod = build.pymodule()
    cmd = ["/usr/bin/python3", os.path.join(build.VERIF, "driver", "py_driver.py"), mod]
    env = dict(os.environ, OMP_NUM_THREADS="2", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
    with_native(run, gen(r, 8000 if q else 60000), cmd, env, "python")
NOTES["G27"] = ("TLA+ trace checking (TLC) of executions through the Python module: arrays of every layout, byte order, numeric type and container; judged by the specification of the library and against the library's own outcome", None)
