"""Shared by the interior-point checks: records runs of the real solvers and turns measured numbers into ranks."""
import concurrent.futures, json, os, re
import vlib

def build():
    return vlib.build_harness("ipm")

def record(c, exe, mode, n, tag="", only=None, parts=8, seed=None):
    """Records n scenarios of a mode (in parallel) and returns the ranked trace file, in scenario order."""
    base = os.path.join(c.work, "ipm-%s%s" % (mode, tag))
    seed = c.seed if seed is None else seed
    if only: parts = 1
    def one(k):
        p = "%s.%d.ndjson" % (base, k)
        args = [p, mode, seed, n] + ([only] if only else [])
        rc, err = vlib.run_harness(exe, args, timeout=850, env={"VH_PART": str(k), "VH_PARTS": str(parts)})
        if rc:
            raise vlib.CheckError("ipm harness failed (%s): %s" % (rc, err[-400:]))
        rank_file(p, p + ".r")
        os.unlink(p)
        return p + ".r"
    with concurrent.futures.ThreadPoolExecutor(parts) as ex:
        fs = list(ex.map(one, range(parts)))
    q = base + ".r.ndjson"
    ls = []
    for f in fs:
        ls += [l for l in open(f).read().split("\n") if l]
        os.unlink(f)
    ls.sort(key=lambda l: int(re.match(r'\{"id":"[^"]*-(\d+)"', l).group(1)))
    with open(q, "w") as g:
        g.write("\n".join(ls) + "\n")
    return q

def ranks(vals, tol):
    """value -> rank; values closer than tol share a rank (too close to call)"""
    r, m, last = -1, {}, None
    for v in sorted(set(vals)):
        if last is None or v - last > tol + 1e-13 * max(abs(v), abs(last)):
            r += 1
        m[v] = r
        last = v
    return m

def rank_run(ev):
    num = lambda v: 1e308 if v == "nan" else v
    ths, phs, tt = [], [], 0.0
    for e in ev:
        if e["e"] == "tr":
            ths += [num(e["th"]), num(e["th2"])]; phs += [num(e["ph"]), num(e["ph2"])]
            t = num(e["tt"])
            if t < 1e300: tt = max(tt, t)
        elif e["e"] == "dir":
            ths.append(num(e["thm"]))
    a, b = ranks(ths, tt), ranks(phs, tt)
    for e in ev:
        if e["e"] == "tr":
            e["th"], e["th2"], e["ph"], e["ph2"] = a[num(e["th"])], a[num(e["th2"])], b[num(e["ph"])], b[num(e["ph2"])]
            del e["tt"]
        elif e["e"] == "dir":
            e["thm"] = a[num(e["thm"])]
        elif e["e"] == "it":
            e.pop("th", None)

def rank_file(p, q):
    with open(p) as f, open(q, "w") as g:
        for line in f:
            d = json.loads(line)
            cur = []
            for e in d["ev"]:
                if e["e"] == "run0":
                    rank_run(cur); cur = []
                cur.append(e)
            rank_run(cur)
            g.write(json.dumps(d, separators=(",", ":")) + "\n")

COMMON = ("P20-assertion", "P20-abnormal-end", "P20-run-ends")       # a run that aborts delivers none of its guarantees

def refute(c):
    for v in ("noreset", "nofilter", "keepfilter"):
        c.tlc_refutes("IPMMC", "IPMBad_%s.cfg" % v)

def check(c, modes, rules, demos, refutes=(), quick=250, thorough=2500, nodesign=False):
    """modes: recorded families of runs; rules: prefixes of the rules this property answers for; demos: corruptions that
       must be rejected with one of these rules."""
    if not nodesign:
        c.tlc_design("IPMMC", "IPMMC.cfg")
        for v in refutes:
            c.tlc_refutes("IPMMC", "IPMBad_%s.cfg" % v)
    exe = build()
    paths = []
    for m in modes:
        n = c.pick(quick, thorough) if not isinstance(m, tuple) else c.pick(*m[1:])
        m = m if not isinstance(m, tuple) else m[0]
        p = record(c, exe, m, n)
        paths.append(p)
        c.traces("IPMTrace", "Trace.cfg", p, rerun=lambda i, m=m, n=n: record(c, exe, m, n, "again", i), rules=tuple(rules) + COMMON, chunk=150)
    if not c.viol and demos:
        q = os.path.join(c.work, "all.r.ndjson")
        with open(q, "w") as g:
            for p in paths:
                g.write("".join(open(p).readlines()[:150]))
        c.binding_demo("IPMTrace", "Trace.cfg", q, demos)
    c.assumptions += ["problems with 2-6 variables and up to 5 constraints whose functions, derivatives and bounds are known exactly to the observer; dense quasi-Newton and mixed dense-sparse Newton solvers",
                      "comparisons within rounding distance of their threshold are left undecided (value 2) and accept either outcome",
                      "runs whose numbers exceed 1e7 are judged only for what does not depend on rounding"]

def on(kind, fn, nth=0, skip=0):
    """corrupter: applies fn to the first event of a kind for which it does not return False"""
    def f(d):
        k = 0
        for i, e in enumerate(d["ev"]):
            if e["e"] == kind:
                if k >= skip and fn(e) is not False:
                    return d
                k += 1
    return f
def setk(**kw):
    def f(e):
        if any(a not in e or e[a] == b for a, b in kw.items()): return False
        e.update(kw)
    return f
def drop(kind, cond=lambda e: True):
    def f(d):
        for i, e in enumerate(d["ev"]):
            if e["e"] == kind and cond(e):
                del d["ev"][i]
                return d
    return f
