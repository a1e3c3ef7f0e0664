"""P01: the solver status is the truth about the run that produced it."""
import ipmlib as I
def later_success(e):
    if e["k"] < 2 or e["su"] == 1: return False
    e["su"] = 1
def st_changed(e):
    if e["st"] != 0: return False
    e["st"] = 2
def success_unfounded(d):
    its = [e for e in d["ev"] if e["e"] == "it"]
    if its and d["ev"][-1].get("st") == 0 and its[-1]["su"] == 1:
        its[-1]["su"] = 0
        return d
def maxit(e):
    if e["maxit"] < 5: return False
    e["maxit"] = 2
def run(c):
    I.check(c, ["basic", "rerun", "every", "fixed"], ["P01-"],
            [("goes on after the tolerance is met", I.on("it", later_success)), ("another status in the callback", I.on("sol", st_changed)),
             ("success without its cause", success_unfounded), ("iteration limit ignored", I.on("run0", maxit)),
             ("status getter differs", I.on("ret", I.setk(gst=77))), ("solution not optimal", I.on("sol", lambda e: False if e["st"] != 0 else e.update(kkt=0)))],
            refutes=["noreset"])
