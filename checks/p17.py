"""P17: operations on sparse, compressed-row, mixed and complex matrices agree with their dense meaning."""
import os
import concurrent.futures as cf
import vlib
from p15 import change

def rec(c, exe, mode, seed, n, name, only=None):
    p = os.path.join(c.work, name + ".ndjson")
    rc, err = vlib.run_harness(exe, [p, mode, seed, n] + ([only] if only else []), timeout=850)
    if rc: raise vlib.CheckError("%s harness failed rc=%s: %s" % (mode, rc, err))
    return p

def dense(k=0):
    def f(e):
        for r in e["post"][k]["v"]:
            if isinstance(r, list) and r and e["post"][k]["m"] * e["post"][k]["n"]: r[-1] += 1; return
        return False
    return f
def entry(k=0, at=0, what=2, by=1):
    def f(e):
        v = e["post"][k]["v"]
        if len(v) <= at or v[at][2] == 0: return False
        v[at][what] += by
    return f
def lost(e):
    if not e["post"][0]["v"]: return False
    e["post"][0]["v"].pop()
def swap(e):
    v = e["post"][0]["v"]
    if len(v) < 2 or v[0] == v[1]: return False
    v[0], v[1] = v[1], v[0]
def ret(e):
    if not e["ret"] or not e["ret"][0]: return False
    e["ret"][0][-1] += 1
def cut(d): d["ev"].pop(); return d
def outside(e):      # an entry outside the placed block
    v, s, k = e["post"][0]["v"], e["ix"][2], e["ix"][1]
    for q in range(len(v)):
        if q < s or q >= s + k: v[q][2] += 1; return
    return False
def cx(d):
    for e in d["ev"]:
        if e["e"] == "op" and e["out"]: e["out"][-1] += 1; return d
def cxkept(d):
    for e in d["ev"]:
        if e["e"] == "op": e["kept"] = 0; return d

DEMOS = {
  "tri": [("wrong product", change("sp_timesVec", dense())), ("operand modified", change("sp_timesVec", entry(1))), ("wrong block", change("sp_addMDinvMt", dense())), ("wrong off-diagonal block", change("sp_addMDinvNt", dense())),
          ("position outside the block", change("sp_copySubDiag", outside)), ("entry lost", change("sp_copyRows", lost)), ("wrong conversion map", change("sp_csr", ret)), ("wrong symmetric product", change("sy_timesVec", dense())), ("truncated trace", cut)],
  "mds": [("wrong product", change("md_timesVec", dense())), ("wrong sparse entry", change("md_scale_row", entry())), ("wrong dense entry", change("md_copyRows", dense(1))), ("wrong maximum", change("md_maxabs", ret)), ("wrong symmetric product", change("sb_timesVec", dense()))],
  "csr": [("wrong value", change("cs_form", entry())), ("unordered row", change("cs_formT", swap)), ("wrong product", change("cs_timesMat", entry())), ("entry lost", change("cs_add", lost)), ("wrong column", change("cs_timesMat0", entry(what=1)))],
}

def run(c):
    c.tlc_design("SpMC", c.pick("SpMC.cfg", "SpMC_thorough.cfg"))
    c.tlc_design("SpRows", "SpRows.cfg")
    c.tlc_refutes("SpRows", "SpRowsBad_stale.cfg")
    exe = vlib.build_harness("sparse"); kx = vlib.build_harness("kron")
    jobs = [("tri", k, c.pick(900, 10000)) for k in range(4)] + [("csr", k, c.pick(900, 8000)) for k in range(2)] + [("mds", k, c.pick(800, 8000)) for k in range(2)]
    with cf.ThreadPoolExecutor(8) as ex: ps = list(ex.map(lambda j: rec(c, exe, j[0], c.seed * 100 + j[1], j[2], "%s%d" % j[:2]), jobs))
    for (m, k, n), p in zip(jobs, ps):
        c.traces("SpTrace", "Trace.cfg", p, rerun=lambda i, m=m, k=k, n=n: rec(c, exe, m, c.seed * 100 + k, n, "again", i), rules=["P17", "harness"], chunk=200)
    n = c.pick(8000, 80000)
    kp = rec(c, kx, "ops", c.seed, n, "complex")
    c.traces("KronTrace", "Trace.cfg", kp, rerun=lambda i: rec(c, kx, "ops", c.seed, n, "again", i), rules=["P17", "harness"], chunk=1500)
    if not c.viol:
        for m in DEMOS: c.binding_demo("SpTrace", "Trace.cfg", next(p for j, p in zip(jobs, ps) if j[0] == m), DEMOS[m])
        c.binding_demo("KronTrace", "Trace.cfg", kp, [("wrong complex entry", cx), ("operand modified", cxkept)])
    c.assumptions += ["matrices of up to about 5 x 5 (sparse and dense part), entries multiples of 1/2 (divisors powers of two), for which every result is exact; complex entries are Gaussian integers",
                      "operations that are not implemented (they assert: extract_diagonal of compressed rows, maxima and row scaling of symmetric mixed matrices) are not exercised; a zero factor times NaN in the output of sparse products is unspecified"]
