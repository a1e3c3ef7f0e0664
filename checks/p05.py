"""P05: the barrier parameter follows its documented schedule."""
import ipmlib as I
def up(d):
    for a, b in zip(d["ev"], d["ev"][1:]):
        if a["e"] == "it" and b["e"] == "dir" and a["el"][:1] == [0] and b["mu"] == a["mu"]:
            b["mu"] += 1
            return d
def late(d):
    for a, b in zip(d["ev"], d["ev"][1:]):
        if a["e"] == "it" and b["e"] == "dir" and a["el"][:1] == [1] and b["mu"] == a["mu"] + 1:
            b["mu"] -= 1
            return d
def rep(e):
    if e["k"] < 1: return False
    e["mu"] += 1
def run(c):
    I.check(c, ["basic", "rerun", "elastic", "infeas"], ["P05-"],
            [("reduced too early", up), ("not reduced", late), ("off the schedule", I.on("dir", lambda e: e.update(mu=-1))), ("another value reported", I.on("it", rep))])
