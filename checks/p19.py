"""P19: dense symmetric linear solves report the true inertia and solve the given system."""
import os
import vlib

def rec(c, exe, seed, n, name, only=None):
    p = os.path.join(c.work, name + ".ndjson")
    rc, err = vlib.run_harness(exe, [p, "seq", seed, n] + ([only] if only else []), timeout=800)
    if rc: raise vlib.CheckError("harness failed rc=%s: %s" % (rc, err))
    return p

def on(kind, fn):
    def f(d):
        for e in d["ev"]:
            if e["e"] == kind and d["meta"]["n"] > 1 and fn(e, d) is not False: return d
    return f
def inertia(e, d):
    if e["ret"] < 0: return False
    e["ret"] = (e["ret"] + 1) % (d["meta"]["n"] + 1)
def sing(e, d):
    if e["ret"] < 0: return False
    e["ret"] = -1
def nosing(e, d):
    if e["ret"] >= 0: return False
    e["ret"] = d["meta"]["n"]
def x(e, d): e["x"][-1] += 1
def ok(e, d): e["ok"] = 0
def cert(e, d): e["A"][0] += 1

def run(c):
    c.tlc_design("SymDenseMC", "SymDenseMC.cfg")
    exe = vlib.build_harness("symdense")
    n = c.pick(4000, 60000)
    p = rec(c, exe, c.seed, n, "seq")
    c.traces("SymDenseTrace", "Trace.cfg", p, rerun=lambda i: rec(c, exe, c.seed, n, "again", i), chunk=500)
    if not c.viol:
        c.binding_demo("SymDenseTrace", "Trace.cfg", p, [("wrong inertia", on("fact", inertia)), ("spurious singularity", on("fact", sing)), ("missed singularity", on("fact", nosing)),
            ("wrong solution", on("solve", x)), ("failed solve", on("solve", ok)), ("wrong certificate", on("fact", cert))])
    c.assumptions += ["matrices of size 0 to 7 built from an integer L D L' decomposition, permuted, and scaled by powers of two (entries from about 1e-7 to 1e8); the solver's absolute threshold of 1e-14 for zero pivots is not approached",
                      "exact singularity is required to be detected when elimination is free of rounding"]
