"""P07: solving again with the same solver object is like solving with a fresh one."""
import concurrent.futures, os, re
import vlib
import ipmlib as I

def build():
    return vlib.build_harness("same")

def record(c, exe, mode, n, tag="", only=None, parts=8):
    base = os.path.join(c.work, "same-%s%s" % (mode, tag))
    if only: parts = 1
    def one(k):
        p = "%s.%d.ndjson" % (base, k)
        rc, err = vlib.run_harness(exe, [p, mode, c.seed, n] + ([only] if only else []), timeout=850, env={"VH_PART": str(k), "VH_PARTS": str(parts)})
        if rc:
            raise vlib.CheckError("harness 'same' failed (%s): %s" % (rc, err[-400:]))
        return p
    with concurrent.futures.ThreadPoolExecutor(parts) as ex:
        fs = list(ex.map(one, range(parts)))
    q = base + ".ndjson"
    ls = []
    for f in fs:
        ls += [l for l in open(f).read().split("\n") if l]
        os.unlink(f)
    ls.sort(key=lambda l: int(re.match(r'\{"id":"[^"]*-(\d+)"', l).group(1)))
    with open(q, "w") as g:
        g.write("\n".join(ls) + "\n")
    return q

def nth_ran(fn, cond):
    def f(d):
        keys = set()
        for e in d["ev"]:
            if e["e"] != "ran": continue
            if e["key"] in keys and cond(e, d):
                if fn(e) is not False: return d
            keys.add(e["key"])
    return f
def dig(e): e["dig"] = "f" + e["dig"][1:] if e["dig"][0] != "f" else "0" + e["dig"][1:]
def its(e): e["it"] += 1
def sta(e): e["st"] = 77
def crash(d):
    if all(e["e"] == "ran" for e in d["ev"]):
        d["ev"] = d["ev"][:-1] + [{"e": "crash", "why": "signal"}]
        return d

def run(c):
    c.tlc_design("Session", "Session.cfg")
    for v in ("filter", "workspace", "memory"):
        c.tlc_refutes("Session", "SessionBad_%s.cfg" % v)
    exe = build()
    n = c.pick(500, 5000)
    p = record(c, exe, "again", n)
    c.traces("SameTrace", "Trace.cfg", p, rerun=lambda i: record(c, exe, "again", n, "rr", i), rules=("P07-",), chunk=200)
    if not c.viol:
        c.binding_demo("SameTrace", "Trace.cfg", p, [
            ("a re-used solver differs", nth_ran(dig, lambda e, d: e["how"] == "reused")),
            ("two fresh solvers differ", nth_ran(dig, lambda e, d: e["how"] != "reused")),
            ("another number of iterations", nth_ran(its, lambda e, d: True)), ("an unknown status", nth_ran(sta, lambda e, d: True)),
            ("a run that crashes", crash)])
    I.check(c, ["rerun"], ["P07-"], [], quick=150, thorough=1500, nodesign=True)
    c.assumptions += ["the observation of a run is a digest of every argument of every user callback, every reported value, status and count; fresh objects are compared under different allocator fill patterns and verbosity",
                      "randomized regularization is left out: its random numbers are seeded by the clock",
                      "problems whose functions return values beyond 1e60 are compared but a failing internal assertion is not held against the solver"]
