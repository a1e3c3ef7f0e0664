"""P16: dense matrix operations compute exactly their mathematical definition."""
import os
import vlib
from p15 import change

def rec(c, exe, mode, seed, n, name, only=None):
    p = os.path.join(c.work, name + ".ndjson")
    rc, err = vlib.run_harness(exe, [p, mode, seed, n] + ([only] if only else []))
    if rc: raise vlib.CheckError("%s harness failed rc=%s: %s" % (mode, rc, err))
    return p

def bump(k=0):
    def f(e):
        for r in e["post"][k]["v"]:
            if r: r[-1] += 1; return
        return False
    return f
def keep(e):
    if e["post"] == e["pre"]: return False
    e["post"] = e["pre"]
def bumpret(e): e["ret"][0][0] += 1
def disagree(e): e["agree"] = False

def run(c):
    c.tlc_design("MatMC", "MatMC.cfg")
    exe = vlib.build_harness("dense")
    first = None
    for mode, n in (("seq", c.pick(4000, 40000)), ("dist", c.pick(1000, 10000))):
        p = rec(c, exe, mode, c.seed, n, mode)
        first = first or p
        c.traces("MatTrace", "Trace.cfg", p, rerun=lambda i, m=mode, k=n: rec(c, exe, m, c.seed, k, "again", i), chunk=500)
    if not c.viol:
        c.binding_demo("MatTrace", "Trace.cfg", first, [("wrong product entry", change("timesMat", bump())), ("operand modified", change("timesMatTrans", bump(1))),
            ("update without effect", change("addSubDiag", keep)), ("wrong norm", change("maxabs", bumpret)), ("processes disagree", change("timesVec", disagree)), ("row lost on growth", change("appendRow", keep))])
    c.assumptions += ["operands are multiples of 1/2 (divisors powers of two), for which every intermediate result is exact in double precision",
                      "rows vacated by shiftRows are unspecified"]
