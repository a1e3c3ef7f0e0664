"""P13: the primal-decomposition outer loop is schedule-independent and stops truthfully."""
import os
import vlib
from p12 import build, record

def later(kind, fn, run2=False):
    def f(d):
        n = 0
        for e in d["ev"]:
            if e["e"] == "run": n += 1
            if e["e"] == kind and (n > 1 or not run2) and fn(e) is not False:
                return d
    return f
def s_h(e): e["h"] = "0" + e["h"][1:] if e["h"][0] != "0" else "1" + e["h"][1:]
def s_x(e): e["x"] = "f" + e["x"][1:]
def s_it(e): e["it"] += 1
def s_st(e):
    if e["r"] != 0: return False
    e["st"] = e["exp"] + 1
def c_stop(d):
    # a run that goes on although the tolerance was met
    for i, e in enumerate(d["ev"]):
        if e["e"] == "model" and i + 2 < len(d["ev"]) and d["ev"][i + 2]["e"] == "model" and i > 3:
            e["ct"] = "lt"; return d
def c_early(d):
    for e in d["ev"]:
        if e["e"] == "model" and e["ct"] == "lt":
            e["ct"] = "gt"; e["ca"] = "gt"
            d["meta"]["maxit"] = 1000
            return d

def run(c):
    c.tlc_design("PriDecOuterMC", "PriDecOuterMC.cfg")
    c.tlc_refutes("PriDecOuterMC", "PriDecOuterBad_noreset.cfg")
    exe = build()
    n = c.pick(500, 4000)
    p, _ = record(c, exe, "outer", c.seed, n, "outer")
    c.traces("PriDecOuterTrace", "Trace.cfg", p, rerun=lambda i: record(c, exe, "outer", c.seed, n, "again", i)[0], chunk=700)
    if not c.viol:
        c.binding_demo("PriDecOuterTrace", "Trace.cfg", p, [("different model on another process count", later("model", s_h, True)),
            ("different master point", later("master", s_x, True)), ("wrong iteration count", later("ret", s_it)), ("wrong status", later("ret", s_st)),
            ("goes on after convergence", c_stop), ("stops without reason", c_early)])
    c.assumptions += ["term values and gradients are multiples of 2^-20, so sums are exact in every order",
                      "the convergence measure is recomputed by the driver from the values the solver hands to the master problem; measurements within 1e-6 of a tolerance are left undecided"]
