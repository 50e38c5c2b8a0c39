#!/usr/bin/env python3
"""replay.py FILE [VARIANT]: executes a recorded session again and has TLC judge both the recorded and the new trace."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, build
raw = open(sys.argv[1]).read().strip()
variant = sys.argv[2] if len(sys.argv) > 2 else "plain"
def fix(x):
    if x == "nan": return vf.NAN
    if x == "inf": return float("inf")
    if x == "-inf": return float("-inf")
    if isinstance(x, list): return [fix(y) for y in x]
    if isinstance(x, dict): return {k: fix(v) for k, v in x.items()}
    return x
d = json.loads(raw)
prop = os.path.basename(os.path.dirname(os.path.abspath(sys.argv[1])))
client = prop.startswith("C")
if client: os.environ.update(GRIDPP_CLI=build.cli(), OMP_NUM_THREADS="2")
module = "ClientTrace" if client else "GridppTrace"
s = ({"thr": 1}, [(e["op"], fix(e["in"])) for e in d["ev"]])
res = vf.run_chunk([build.client(variant) if client else build.driver(variant)], [s], 120)[0]
new = vf.trace_line(s, res)
for e in json.loads(new)["ev"]:
    print(json.dumps(e)[:3000])
for name, l in (("recorded", raw), ("now", new)):
    st, tr, rej, out = vf.judge([l], module=module, debug=True, workers=1)
    print(name, "rejected events:", [b for a, b in rej])
    for x in out.splitlines():
        if "TOTAL" in x: print("  ", x[:3000])
sys.exit(1 if rej else 0)
