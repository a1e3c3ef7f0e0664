"""P11: regularization follows the inertia-correction protocol and always terminates."""
import os
import vlib

def rec(c, exe, mode, seed, n, depth, name, only=None):
    p = os.path.join(c.work, name + ".ndjson")
    rc, err = vlib.run_harness(exe, [p, mode, seed, n, depth] + ([only] if only else []), timeout=800)
    if rc: raise vlib.CheckError("%s harness failed rc=%s: %s" % (mode, rc, err))
    return p

def on(kind, fn, last=False):
    def f(d):
        for e in (reversed(d["ev"]) if last else d["ev"]):
            if e["e"] == kind and fn(e, d) is not False: return d
    return f
def up(k):
    def f(e, d):
        if not e[k] or e[k][1] <= -1000000000: return False
        e[k] = [e[k][0] + 300000, e[k][1] + 300000]
    return f
def spurious(e, d):
    if not e["cc"] or e["cc"][1] > -1000000000: return False
    e["cc"] = [-8000000, -8000000]
def retok(e, d):
    if e["ok"]: return False
    e["ok"] = 1
def giveup(e, d):
    i = d["ev"].index(e)
    if e["ok"] or d["ev"][i - 1]["e"] != "fact": return False
    d["ev"][i - 2:i] = []
def accept(e, d):
    i = d["ev"].index(e)
    if d["meta"]["dwd"] or e["n"] != d["meta"]["nreq"]: return False
    e["n"] += 1
def flip(e, d): e["ok"] = 1 - e["ok"]

def run(c):
    for cfg in ("primal", "primal0", "dwd", "dual", "dualdwd"):
        c.tlc_design("RegMC", "RegMC_%s.cfg" % cfg)
    for cfg in ("keep", "early"):
        c.tlc_refutes("RegMC", "RegBad_%s.cfg" % cfg)
    exe = vlib.build_harness("reg")
    first = {}
    for mode, n, depth in (("reg", c.pick(1500, 20000), 0), ("exh", 0, c.pick(5, 7)), ("curv", c.pick(400, 5000), 0)):
        first[mode] = rec(c, exe, mode, c.seed, n, depth, mode)
        c.traces("RegTrace", "Trace.cfg", first[mode], rerun=lambda i, m=mode, k=n, d=depth: rec(c, exe, m, c.seed, k, d, "again", i), chunk=400)
    if not c.viol:
        c.binding_demo("RegTrace", "Trace.cfg", first["reg"], [("larger primal regularization", on("build", up("wx"))), ("larger dual regularization", on("build", up("cd"), True)),
            ("regularization out of nothing", on("build", spurious)), ("failure reported as success", on("ret", retok)), ("gives up early", on("ret", giveup)),
            ("accepts wrong inertia", on("fact", accept))])
        c.binding_demo("RegTrace", "Trace.cfg", first["curv"], [("curvature test", on("curv", flip))])
    c.assumptions += ["the outcomes of the factorizations are scripted: a linear system whose matrix updates and factorizations are stand-ins drives the real perturbation, acceptance and refactorization code",
                      "sizes of regularizations are compared as logarithms, with a tolerance of 6e-5 decades"]
