"""P15: vector operations compute exactly their mathematical definition."""
import os
import vlib

def rec(c, exe, mode, seed, n, name, only=None):
    p = os.path.join(c.work, name + ".ndjson")
    rc, err = vlib.run_harness(exe, [p, mode, seed, n] + ([only] if only else []))
    if rc: raise vlib.CheckError("%s harness failed rc=%s: %s" % (mode, rc, err))
    return p

def change(op, fn):
    def f(d):
        for e in d["ev"]:
            if e["e"] == "op" and e["o"] == op and fn(e) is not False: return d
    return f
def bump(e):
    for c in e["ch"]:
        if c[1]: c[1][0] += 1; return
    return False
def bumpret(e): e["ret"][0] += 1
def side(e):
    if any(c[0] == "s0" for c in e["ch"]): return False
    e["ch"].append(["s0", [77]])
def drop(e):
    if not e["ch"]: return False
    e["ch"] = []

def run(c):
    c.tlc_design("VecMC", "VecMC.cfg")
    exe = vlib.build_harness("vec")
    first = None
    for mode, n in (("seq", c.pick(500, 6000)), ("comp", c.pick(300, 4000))):
        p = rec(c, exe, mode, c.seed, n, mode)
        first = first or p
        c.traces("VecTrace", "Trace.cfg", p, rerun=lambda i, m=mode, k=n: rec(c, exe, m, c.seed, k, "again", i), chunk=400)
    if not c.viol:
        c.binding_demo("VecTrace", "Trace.cfg", first, [("wrong axpy entry", change("axpy", bump)), ("wrong reduction", change("onenorm", bumpret)),
            ("input modified", change("componentMult", side)), ("operation without effect", change("component_max", drop)), ("wrong step to boundary", change("fractionToTheBdry_w_pattern_local", bumpret))])
    c.assumptions += ["operands are multiples of 1/4 (divisors powers of two), for which every intermediate result is exact in double precision",
                      "norms and logarithms are compared up to a relative rounding of 1e-11"]
