"""G25: threads."""
import glob, json, os, re, subprocess
import build
from props import check, rng, NOTES
from props_robust import CASES
import vf

BUILDS = {"mk_grid", "mk_points", "mk_tree", "mk_points_from_tree", "copy", "assign", "del", "to_points", "subset", "mk_struct", "struct_clone", "struct_del"}
SAFE = {"GOMP_parallel", "GOMP_atomic_start", "GOMP_atomic_end", "GOMP_critical_start", "GOMP_critical_end", "GOMP_critical_name_start", "GOMP_critical_name_end",
        "GOMP_loop_end_nowait", "GOMP_single_start"}

def repeated(s, configs):
    """The session, and its questions once more under every configuration of threads."""
    if isinstance(s, tuple): s = s[1]
    s = [(op, a) for op, a in s if "RandomChoice" not in json.dumps(a)]
    k = max([i + 1 for i, (op, _) in enumerate(s) if op in BUILDS] + [0])
    tail = s[k:]
    if not tail: return None
    out = list(s[:k])
    for c in configs:
        out += [("threads", c)] + tail
    return out

def gen(r, n, configs):
    out = []
    while len(out) < n:
        s = repeated(CASES[len(out) % len(CASES)](r), configs)
        if s: out.append(s)
        elif r.random() < 0.01: out.append([("threads", configs[0])])
    return out

@check("G25")
def g25(run):
    q = run.quick()
    r = rng(run)
    for n, l, cells in ([(2, 2, "{1, 2}"), (3, 1, "{1, 2, 3}")] if q else [(2, 3, "{1, 2}"), (3, 2, "{1, 2}"), (4, 1, "{1, 2, 3}")]):
        run.design("OmpLoopDesign", "CONSTANTS N = %d L = %d Cells = %s\nINIT Init\nNEXT Next\nINVARIANT Ok\nCHECK_DEADLOCK FALSE\n" % (n, l, cells), label="OmpLoopDesign-%d-%d" % (n, l))
    # real threads
    run.sessions(gen(r, 900 if q else 9000, [{"n": k, "order": 0} for k in (1, 8, 3)]), module="ThreadsTrace", label="threads")
    # every iteration a thread of its own, every access to memory noted
    try:
        exe = build.driver("race")
    except build.BuildError as e:
        # constructs the stand-in for the threads does not have; the real threads still decide
        build.driver("plain")
        run.cov["recorded_accesses"] = "not possible: " + str(e)[-300:]
        return
    ss = gen(r, 1500 if q else 15000, [{"n": 8, "order": k} for k in (0, 1, 2)])
    lines, _ = run.sessions([({"race": True}, s) for s in ss], cmd=[exe], module="ThreadsTrace", label="recorded")
    sites, regions, accesses, lost = set(), 0, 0, 0
    for l in lines:
        for e in json.loads(l)["ev"]:
            if "acc" in e:
                a = e["acc"]; sites.update(a["sites"]); regions += a["regions"]; accesses += a["accesses"]; lost += not a["watched"]
    loops = sum(len(re.findall(r"#pragma omp parallel", open(f, errors="replace").read())) for f in build.api_sources())
    run.cov["recorded_accesses"] = {"parallel_loops_entered": regions, "distinct_loops": len(sites), "loops_in_the_sources": loops, "accesses": accesses, "operations_not_followed": lost}
NOTES["G25"] = ("TLA+ trace checking (TLC) of recorded thread executions, and an exhaustive design model: loop schedules checked exhaustively in a design model; real loops executed with every iteration on a thread of its own in three orders, all memory accesses recorded and judged by the race definition of the specification; outcomes compared over 1, 3 and 8 real threads", None)
