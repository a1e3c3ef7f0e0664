"""P23: Kron reduction returns the Schur complement and the voltage map of the network matrix."""
import os
import vlib

def rec(c, exe, mode, seed, n, name, only=None):
    p = os.path.join(c.work, name + ".ndjson")
    rc, err = vlib.run_harness(exe, [p, mode, seed, n] + ([only] if only else []), timeout=800)
    if rc: raise vlib.CheckError("harness failed rc=%s: %s" % (rc, err))
    return p

def on(kind, fn):
    def f(d):
        for e in d["ev"]:
            if e["e"] == kind and fn(e) is not False: return d
    return f
def num(e): return e["ok"] == 1 and e["sing"] == 0 and e["R"] and e["M"]
def r(e):
    if not num(e): return False
    e["R"][-1] += 1
def rt(e):
    if not num(e) or e["R"] == [-x for x in e["R"]]: return False
    e["R"] = [-x for x in e["R"]]
def m(e):
    if not num(e): return False
    e["M"][0] -= 1
def ok(e):
    if e["sing"] != 1: return False
    e["ok"] = 1
def fail(e):
    if not num(e): return False
    e["ok"] = 0
def kept(e): e["kept"] = 0
def w(e):
    if not e["w"]: return False
    e["w"][-1] += 1
def z(e):
    if e["sing"] == 0: return False
    e["z"] = [0] * len(e["z"])

def run(c):
    c.tlc_design("KronMC", "KronMC.cfg")
    exe = vlib.build_harness("kron")
    n = c.pick(12000, 150000)
    p = rec(c, exe, "red", c.seed, n, "red")
    c.traces("KronTrace", "Trace.cfg", p, rerun=lambda i: rec(c, exe, "red", c.seed, n, "again", i), chunk=1500)
    if not c.viol:
        c.binding_demo("KronTrace", "Trace.cfg", p, [("wrong entry of the reduced matrix", on("go", r)), ("negated matrix", on("go", rt)), ("wrong map", on("go", m)), ("singular block accepted", on("go", ok)),
            ("failure", on("go", fail)), ("inputs modified", on("go", kept)), ("wrong voltages", on("apply", w)), ("wrong certificate of singularity", on("go", z))])
    c.assumptions += ["symmetric networks of up to 11 nodes with Gaussian integer admittances scaled by a power of two (2^-20 to 2^20); results are compared after rounding to integers (1e-4)",
                      "a singular eliminated block must be reported when its singularity survives rounding (zero rows, zero pivots without fill-in, identical buses)"]
