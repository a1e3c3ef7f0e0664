"""P22: the C and Fortran interfaces do what the native interface does."""
import os
import vlib

def rec(c, exe, seed, n, name, only=None):
    p = os.path.join(c.work, name + ".ndjson")
    rc, err = vlib.run_harness(exe, [p, "all", seed, n] + ([only] if only else []), timeout=850)
    if rc: raise vlib.CheckError("cintf harness failed rc=%s: %s" % (rc, err))
    return p

def last(fn, how=("c", "fortran")):
    def f(d):
        if any(e["e"] in ("ovf", "crash", "assert") for e in d["ev"]): return None
        for e in reversed(d["ev"]):
            if e["e"] == "solve" and e["how"] in how:
                fn(e); return d
    return f
def put(k, v):
    def f(e): e[k] = v
    return f
def drop(d):
    if any(e["e"] in ("ovf", "crash", "assert") for e in d["ev"]): return None
    for k, e in enumerate(d["ev"]):
        if e["e"] == "solve" and e["pass"] == 1:
            del d["ev"][k]; return d
def cut(d):
    if any(e["e"] in ("ovf", "crash", "assert") for e in d["ev"]): return None
    d["ev"].pop(); return d
def mk(d):
    if any(e["e"] in ("ovf", "crash", "assert") for e in d["ev"]): return None
    for e in d["ev"]:
        if e["e"] == "create" and e["how"] == "c": e["calls"] = "0"; return d

def run(c):
    c.tlc_design("CIntf", "CIntf.cfg")
    for v in ("flags", "shared", "residue"): c.tlc_refutes("CIntf", "CIntfBad_%s.cfg" % v)
    exe = vlib.build_harness("cintf", extra_src=["cintf_c.cpp", os.path.join(vlib.REPO, "src/Interface/chiopInterface.cpp")])
    n = c.pick(3000, 24000)
    jobs = 6
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(jobs) as ex:
        ps = list(ex.map(lambda k: rec(c, exe, c.seed * 100 + k, n // jobs, "use%d" % k), range(jobs)))
    for k, p in enumerate(ps):
        c.traces("CIntfTrace", "Trace.cfg", p, rerun=lambda i, k=k: rec(c, exe, c.seed * 100 + k, n // jobs, "again%d" % k, i), chunk=100)
    if not c.viol:
        c.binding_demo("CIntfTrace", "Trace.cfg", ps[0], [("other calls", last(put("ek", "0"))), ("other flags", last(put("flags", "0"))), ("other arguments", last(put("args", "0"))),
            ("another solution", last(put("x", "0"))), ("another objective", last(put("f", "0"))), ("another status", last(put("st", 77), ("fortran",))), ("a field of the user changed", last(put("kept", 0))),
            ("remembered values asked at another point", last(put("lies", 1))), ("wrong sizes", last(put("strange", 1))), ("a solve is missing", drop), ("other calls when created", mk), ("truncated trace", cut)])
    c.assumptions += ["dense problems through C and Fortran, mixed dense-sparse ones through C (the sparse formulation is not built); one process; default options of the interface plus max_iter 60 and max_iter 40 of restoration problems",
                      "C functions report success (the interface ignores what they return); Fortran functions serve one problem at a time",
                      "scenarios are excused from where a user value exceeds 1e60; the solves of the native interface are judged by the other properties"]
