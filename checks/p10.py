"""P10: the quasi-Newton matrix is the one of its stored pairs, and the pairs are the last acceptable ones."""
import os
import vlib

def rec(c, exe, mode, seed, n, name, only=None):
    p = os.path.join(c.work, name + ".ndjson")
    rc, err = vlib.run_harness(exe, [p, mode, seed, n] + ([only] if only else []), timeout=850)
    if rc: raise vlib.CheckError("harness failed rc=%s: %s" % (rc, err))
    return p

def nomem(d):
    for e in d["ev"]:
        if e["e"] == "query": e["m"] = []; return d
def dropupd(d):
    # the last update that entered the memory of the final query is forgotten
    q = [k for k, e in enumerate(d["ev"]) if e["e"] == "query"]
    if not q or len(d["ev"][q[-1]]["m"]) != 1: return None
    ids = d["ev"][q[-1]]["m"][0][0]
    u = [k for k, e in enumerate(d["ev"]) if e["e"] == "upd"]
    if not ids or ids[-1] >= len(u): return None
    del d["ev"][u[ids[-1]]]
    return d
def shorter(d):
    m = d["meta"]
    if m["lmax"] and any(e["e"] == "query" and len(e["m"]) == 1 and len(e["m"][0][0]) == m["lmax"] for e in d["ev"]):
        m["lmax"] -= 1; return d
def oldest(d):
    for e in d["ev"]:
        if e["e"] == "query" and len(e["m"]) == 1 and len(e["m"][0][0]) > 1: e["m"][0][0].pop(); return d
def lost(d):
    for e in d["ev"]:
        if e["e"] == "pair" and e["cls"] == 1: e["cls"] = 0; return d
def cut(d):
    d["ev"].pop(); return d

def run(c):
    for k in range(4): c.tlc_design("LBFGSMC", "LBFGSMC%d.cfg" % k)
    exe = vlib.build_harness("lbfgs"); ipm = vlib.build_harness("lbipm")
    for mode, n in (("seq", c.pick(4000, 40000)), ("dist", c.pick(3000, 30000))):
        p = rec(c, exe, mode, c.seed, n, mode)
        c.traces("LBFGSTrace", "Trace.cfg", p, rerun=lambda i, mode=mode, n=n: rec(c, exe, mode, c.seed, n, "again", i), chunk=500)
        if mode == "seq" and not c.viol:
            c.binding_demo("LBFGSTrace", "Trace.cfg", p, [("no memory explains the result", nomem), ("a forgotten update", dropupd), ("a shorter memory", shorter),
                ("the newest pair missing", oldest), ("truncated trace", cut)])
    n = c.pick(900, 12000)
    p = rec(c, ipm, "ipm", c.seed, n, "ipm")
    c.traces("LBFGSIpm", "Trace.cfg", p, rerun=lambda i: rec(c, ipm, "ipm", c.seed, n, "again", i), chunk=200)
    if not c.viol:
        c.binding_demo("LBFGSIpm", "Trace.cfg", p, [("no memory explains the matrix", nomem), ("an acceptable pair skipped", lost)])
    c.assumptions += ["recorded histories: 1-4 unknowns, up to 7 updates with integer data scaled by powers of two, memory lengths 0-5, all scaling strategies, 1-3 ranks",
                      "solver runs: generated problems with quasi-Newton Hessians; pairs within 1% (plus rounding) of the curvature threshold may go either way; matrices too ill conditioned to tell memories apart are not judged"]
