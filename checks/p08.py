"""P08: internal problem transformations are invisible to the user."""
import ipmlib as I
import p07 as S

def run(c):
    c.tlc_design("Present", "Present.cfg")
    c.tlc_refutes("Present", "PresentBad_scaleinf.cfg")
    exe = S.build()
    n = c.pick(1400, 14000)
    p = S.record(c, exe, "same", n)
    c.traces("SameTrace", "Trace.cfg", p, rerun=lambda i: S.record(c, exe, "same", n, "rr", i), rules=("P08-",), chunk=500)
    if not c.viol:
        c.binding_demo("SameTrace", "Trace.cfg", p,
            [("another run with %s" % k, S.nth_ran(S.dig, lambda e, d, k=k: e["how"] == k)) for k in ("one-call", "order", "fixed", "relaxed", "scaled", "infinite", "start")])
    I.check(c, ["basic", "fixed", "elastic"], ["P08-", "P02-solution", "P04-inside"],
            [("fixed values", I.on("cb", I.setk(fix=0))), ("solution outside the user's bounds", I.on("sol", lambda e: e["st"] in (0, 1, 2) and I.setk(ub=0)(e))),
             ("gradient not of the user's function", I.on("sol", I.setk(gf=0)))], quick=150, thorough=1500, nodesign=True)
    c.assumptions += ["presentations are chosen so that the arithmetic is exact (scale factors and relaxations are powers of two, fixed values dyadic), so that equivalent presentations must give bitwise equal runs"]
