"""P12: primal decomposition evaluates every term exactly once under every schedule."""
import copy, os
import vlib

RULES = None

def build():
    # the solver source is compiled once more without optimization so that the life time of stack buffers is exact
    return vlib.build_harness("pridec", extra_src=[os.path.join(vlib.REPO, "src/Optimization/hiopAlgPrimalDecomp.cpp")], flags=("-O0",))

def record(c, exe, mode, seed, n, name, only=None):
    out = os.path.join(c.work, name + ".ndjson")
    rc, err = vlib.run_harness(exe, [out, mode, seed, n] + ([only] if only else []), timeout=600)
    if rc:
        raise vlib.CheckError("pridec harness failed rc=%s: %s" % (rc, err))
    return out, err

def c_skip(d):
    for i, e in enumerate(d["ev"]):
        if e["e"] == "f":
            del d["ev"][i]; return d
def c_dup(d):
    for i, e in enumerate(d["ev"]):
        if e["e"] == "g":
            d["ev"].insert(i, copy.deepcopy(e)); return d
def c_val(d):
    for e in d["ev"]:
        if e["e"] == "approx":
            e["v"] += 1; return d
def c_x(d):
    for e in d["ev"]:
        if e["e"] == "f" and d["meta"]["P"] > 1:
            e["x"][0] += 1; return d
def c_left(d):
    d["ev"][-1]["lm"] = 1; return d
def c_it(d):
    if d["meta"]["P"] > 2:
        for e in d["ev"]:
            if e["e"] == "ret":
                e["it"] += 1; return d

def run(c):
    for cfg in ["PriDec_2_1_2.cfg", "PriDec_2_3_2.cfg", "PriDec_3_3_2.cfg", "PriDec_3_5_1.cfg", "PriDec_4_4_1.cfg"] + c.pick([], ["PriDec_4_5_1.cfg", "PriDec_4_5_2.cfg", "PriDec_5_6_1.cfg"]):
        c.tlc_design("PriDec", cfg, args=())
    for cfg in ["PriDecBad_earlyend.cfg", "PriDecBad_nolast.cfg"]:
        c.tlc_refutes("PriDec", cfg)
    exe = build()
    rnd, _ = record(c, exe, "rand", c.seed, c.pick(700, 6000), "rand")
    c.traces("PriDecTrace", "Trace.cfg", rnd, rerun=lambda i: record(c, exe, "rand", c.seed, c.pick(700, 6000), "again", i)[0])
    nd = c.pick(6000, 40000)
    dfs, err = record(c, exe, "dfs", c.seed, nd, "dfs")
    c.traces("PriDecTrace", "Trace.cfg", dfs, rerun=lambda i: record(c, exe, "dfs", c.seed, nd, "again", i)[0], chunk=4000)
    c.cov["systematic_schedules"] = [l for l in err.split("\n") if l.startswith("dfs")]
    if not c.viol:
        c.binding_demo("PriDecTrace", "Trace.cfg", rnd, [("skipped term", c_skip), ("duplicated gradient", c_dup), ("wrong sum", c_val),
                                                         ("stale point", c_x), ("left-over message", c_left), ("different stop", c_it)])
    c.assumptions += ["MPI semantics as implemented by harness/fakempi.cpp (FIFO per process pair, arbitrary delays, buffered or synchronous sends)",
                      "term values are integers below 2^31, so sums are exact"]
