"""P14: distributed computation equals sequential computation and never desynchronizes."""
import os
import vlib

def rec(c, exe, mode, seed, n, name, only=None):
    p = os.path.join(c.work, name + ".ndjson")
    rc, err = vlib.run_harness(exe, [p, mode, seed, n] + ([only] if only else []), timeout=850)
    if rc: raise vlib.CheckError("%s harness failed rc=%s: %s" % (mode, rc, err))
    return p

def it(fn):
    def f(d):
        for e in d["ev"]:
            if e["e"] == "iter" and fn(e, d) is not False: return d
    return f
def calls(e, d): e["calls"][-1] += "f-"
def rep(e, d): e["rep"][0] = "0"
def x(e, d):
    if d["meta"]["fam"] == "resto" or "x" not in e or e["k"] > 2: return False
    e["x"] = 0
def out(d):
    for e in d["ev"]:
        if e["e"] == "end": e["st"][-1] = 10 if e["st"][0] != 10 else 0; return d
def sched(d):
    es = [e for e in d["ev"] if e["e"] == "end"]
    if len(es) == 2: es[1]["dig"] = "0"; return d
def stuck(d):
    for k, e in enumerate(d["ev"]):
        if e["e"] == "run" and not any(q["e"] == "ovf" for q in d["ev"]): d["ev"][k + 1:] = [{"e": "mpi", "why": "deadlock"}]; return d
def cut(d):
    if any(e["e"] == "ovf" for e in d["ev"]): return None
    d["ev"].pop(); return d

def run(c):
    c.tlc_design("Dist", "Dist.cfg")
    c.tlc_refutes("Dist", "DistBad_local.cfg"); c.tlc_refutes("Dist", "DistBad_skip.cfg")
    # single operations
    ops = [("vec", "dist", c.pick(300, 3000), "VecTrace", 400), ("vec", "cdist", c.pick(200, 2000), "VecTrace", 400),
           ("dense", "dist", c.pick(1000, 12000), "MatTrace", 500), ("lbfgs", "dist", c.pick(1500, 15000), "LBFGSTrace", 500)]
    for h, m, n, mod, ch in ops:
        exe = vlib.build_harness(h)
        p = rec(c, exe, m, c.seed, n, h + "-" + m)
        c.traces(mod, "Trace.cfg", p, rerun=lambda i, exe=exe, m=m, n=n: rec(c, exe, m, c.seed, n, "again", i), chunk=ch)
    # whole solves
    exe = vlib.build_harness("distipm")
    n = c.pick(1200, 14000)
    p = rec(c, exe, "dist", c.seed, n, "solves")
    c.traces("DistTrace", "Trace.cfg", p, rerun=lambda i: rec(c, exe, "dist", c.seed, n, "again", i), chunk=200)
    if not c.viol:
        c.binding_demo("DistTrace", "Trace.cfg", p, [("a process makes another call", it(calls)), ("a process sees another value", it(rep)), ("an early iterate differs", it(x)),
            ("processes return different statuses", out), ("outcome depends on the schedule", sched), ("deadlock", stuck), ("truncated trace", cut)])
    c.assumptions += ["2 to 4 processes (empty and uneven parts) on a deterministic MPI that owns the schedule; reductions are evaluated in rank order",
                      "the sequential solve is followed over the first iterations (later ones may separate by rounding) and, for convex problems solved by both, compared at the solution",
                      "user functions return the same values and flags on every process; the options file of restoration problems limits them to 40 iterations"]
