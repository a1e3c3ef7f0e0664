"""P18: iterative linear solvers report convergence truthfully."""
import os
import vlib

def rec(c, exe, mode, seed, n, name, only=None):
    p = os.path.join(c.work, name + ".ndjson")
    rc, err = vlib.run_harness(exe, [p, mode, seed, n] + ([only] if only else []), timeout=800)
    if rc: raise vlib.CheckError("%s harness failed rc=%s: %s" % (mode, rc, err))
    return p

def on(fn, kinds=("fam",)):
    def f(d):
        for i, e in enumerate(d["ev"]):
            if e["e"] in kinds and fn(e, d, i) is not False: return d
    return f
def lie(e, d, i):
    if e["ret"]: return False
    e.update(ret=True, flag=0, said=1)
def worse(e, d, i):
    if e["ret"] or d["meta"]["kind"] not in (0, 1, 2) or e["k"] < 1 or d["ev"][0]["fault"] or d["ev"][0]["inf"]: return False
    e["rel"] += 2000000; e["rr"] += 2000000; e["ra"] += 2000000
def count(e, d, i):
    if e["ret"]: return False
    e["it2"] = 2 * e["lim"] + 2
def resid(e, d, i):
    if not e["ret"] or e["zero"] or e["rel"] < -9000000: return False
    e["rr"] += 5000
def over(e, d, i): e["apps"] += 5 + 4 * e["lim"]
def fresh(e, d, i): e["hx"] = "0"
def reason(e, d, i):
    if e["ret"]: return False
    e["flag"] = 0
def late(e, d, i):
    if i < 3 or d["ev"][i - 1]["ret"] or not e["ret"] or e["k"] != d["ev"][i - 1]["k"] + 1: return False
    e["it2"] -= 2

def run(c):
    c.tlc_design("Krylov", "Krylov.cfg")
    for v in ("believe", "last", "offbyone"): c.tlc_refutes("Krylov", "KrylovBad_%s.cfg" % v)
    exe = vlib.build_harness("krylov")
    first = {}
    for mode, n in (("family", c.pick(4000, 60000)), ("reuse", c.pick(4000, 60000))):
        first[mode] = rec(c, exe, mode, c.seed, n, mode)
        c.traces("KrylovTrace", "Trace.cfg", first[mode], rerun=lambda i, m=mode, k=n: rec(c, exe, m, c.seed, k, "again", i), chunk=600)
    if not c.viol:
        c.binding_demo("KrylovTrace", "Trace.cfg", first["family"], [("failure reported as success", on(lie)), ("not the best iterate", on(worse)), ("iteration count", on(count)),
            ("reported residual", on(resid)), ("limit exceeded", on(over)), ("reason", on(reason)), ("count of success", on(late))])
        c.binding_demo("KrylovTrace", "Trace.cfg", first["reuse"], [("reused solver differs", on(fresh, ("fresh",)))])
    c.assumptions += ["systems of size 1 to 6 with small integer entries; true residuals are computed in extended precision",
                      "comparisons that loss of accuracy of the recurrences would falsify (best iterate, residual reported on failure) are made for well-conditioned systems or at most two iterations",
                      "a reused solver is compared with a fresh one after its initial iterate was set again (otherwise it starts from its last iterate)"]
