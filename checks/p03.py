"""P03: user functions receive consistent points, multipliers and truthful change flags."""
import ipmlib as I
def stale(e):
    if e["same"] != 0: return False
    e["nx"] = 0
def lam(e):
    if e["k"] != "H": return False
    e["lam"] = 0
def nl(e):
    if e["k"] != "H" or e["sl"] != 0: return False
    e["nl"] = 0
def run(c):
    I.check(c, ["basic", "rerun", "fixed", "fail"], ["P03-"],
            [("new point passed off as the old one", I.on("cb", stale)), ("wrong multipliers", I.on("cb", lam)), ("new multipliers passed off as the old ones", I.on("cb", nl)),
             ("wrong constraint indices", I.on("cb", I.setk(idx=0))), ("wrong sizes", I.on("cb", I.setk(sz=0)))])
