"""P20: failing user functions, infeasible problems and feasibility restoration end with a truthful outcome."""
import ipmlib as I
def hidden(d):
    if d["ev"][-1]["e"] == "ret" and d["ev"][-1]["st"] == -15:
        for e in d["ev"]:
            if e["e"] == "cb": e["bad"] = 0
        return d
def swallowed(e):
    if e["st"] != -15: return False
    e["st"] = e["gst"] = 0
def run(c):
    I.check(c, ["fail", "infeas", "resto", "every"], ["P20-"],
            [("error status without a failure", hidden), ("failure swallowed", I.on("ret", swallowed)), ("restoration increases infeasibility", I.on("it", I.setk(rok=0))),
             ("run does not end", I.drop("ret"))])
