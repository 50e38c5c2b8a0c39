#!/usr/bin/env python3
"""How many slightly wrong results a check would notice: python3 tools/sensitivity.py G18 [relative size]
Runs the check's sessions, changes one number of one recorded outcome of each and has them judged."""
import json, random, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, vf
def leaves(x, path=()):
    if isinstance(x, list):
        for i, y in enumerate(x): yield from leaves(y, path + (i,))
    elif isinstance(x, dict):
        for k, y in x.items(): yield from leaves(y, path + (k,))
    elif isinstance(x, (int, float, str)) or x is None: yield path, x
def put(x, path, v):
    for p in path[:-1]: x = x[p]
    x[path[-1]] = v
def main():
    prop, rel = sys.argv[1], float(sys.argv[2]) if len(sys.argv) > 2 else 0.01
    r = random.Random(7)
    def sessions(self, sessions, variant="plain", module="GridppTrace", cmd=None, label="", opts=None, env=None, tmo=120, jobs=8, accept=None):
        cmd = cmd or [vf.build.driver(variant)]
        norm = [s if isinstance(s, tuple) else (opts or {}, s) for s in sessions]
        res = vf.execute(cmd, norm, env=env, tmo=tmo, jobs=jobs)
        lines, what = [], []
        for s, rr in zip(norm, res):
            ev = [json.loads(x) for x in rr]
            ks = [k for k, e in enumerate(ev) if e["r"] == "ok" and "out" in e]
            if not ks: continue
            k = r.choice(ks); ls = [l for l in leaves(ev[k]["out"]) if not isinstance(l[1], bool)]
            if not ls: continue
            path, v = r.choice(ls)
            if v in ("nan", "inf", "-inf") or v is None: nv = 1.0
            elif isinstance(v, str): continue
            elif isinstance(v, int): nv = v + r.choice([-1, 1])
            elif r.random() < 0.1: nv = "nan"
            else: nv = v + r.choice([-1, 1]) * rel * max(abs(v), 1e-3)
            if path: put(ev[k]["out"], path, nv)
            else: ev[k]["out"] = nv
            lines.append(vf.trace_line(s, [json.dumps(e) for e in ev])); what.append((s[1][k][0], k + 1, "nan" if v == "nan" else "to nan" if nv == "nan" else "int" if isinstance(v, int) else "real"))
        _, _, rej, _ = vf.judge(lines, module)
        rej = set(a for a, _ in rej)
        st = {}
        for i, w in enumerate(what, 1):
            a = st.setdefault((w[0], w[2]), [0, 0]); a[0] += 1; a[1] += i in rej
        for k in sorted(st): print("%-26s %-7s %5d changed, %5d noticed (%d%%)" % (k[0], k[1], st[k][0], st[k][1], 100 * st[k][1] // st[k][0]))
        return lines, []
    vf.Run.sessions = sessions
    vf.Run.design = lambda *a, **k: None
    run = vf.Run(prop, "quick", 5)
    props.CHECKS[prop](run)
main()
