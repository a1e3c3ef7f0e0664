"""P06: the filter line search accepts exactly what the documented rules accept."""
import ipmlib as I
def acc(d):
    ev = d["ev"]
    for i in range(len(ev) - 1):
        e = ev[i]
        if e["e"] == "tr":
            j = i + 1
            while j < len(ev) and ev[j]["e"] == "cb": j += 1
            if j < len(ev) and ev[j]["e"] == "it" and ev[j]["fr"] == 0 and ev[j]["blow"] == 0 and not (e["tiny"] or e["ss"] or e["blow"]) and d["ev"][0]["every"] == 0 and e["sdt"] != 2:
                e.update(sdt=0, sdp=0, sw=0, arm=0)
                return d
def rej(d):
    ev = d["ev"]
    for i in range(len(ev)):
        if ev[i]["e"] == "tr" and ev[i]["fc"] == 0 and not (ev[i]["tiny"] or ev[i]["ss"] or ev[i]["blow"]):
            nx = [e for e in ev[i + 1:] if e["e"] in ("tr", "it")][:1]
            if nx and nx[0]["e"] == "tr" and nx[0]["ss"] == 0:
                ev[i].update(sdt=1, sdp=1, sw=1, arm=1)
                return d
def flip(e):
    if e["fd"] != 1 or e["ss"] or e["blow"]: return False
    e["fd"] = 0; e["fc"] = 0
def skip(e):
    if e["j"] < 2 or e["ss"] or e["blow"] or e["tiny"]: return False
    e["j"] += 1
def run(c):
    I.check(c, ["basic", "infeas", "rerun", "resto"], ["P06-"],
            [("accepted although not acceptable", acc), ("rejected although acceptable", rej), ("filter forgets", I.on("tr", flip)), ("step not halved", I.on("tr", skip))],
            refutes=["nofilter", "keepfilter"])
