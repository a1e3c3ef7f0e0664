"""P02: callbacks, getters and reported quantities agree with the user's problem and with each other."""
import ipmlib as I
def run(c):
    I.check(c, ["basic", "fixed", "rerun", "elastic"], ["P02-"],
            [("variables", I.on("it", I.setk(x=0), skip=1)), ("objective", I.on("it", I.setk(obj=0))), ("multipliers", I.on("it", I.setk(lam=0))),
             ("iteration skipped", I.drop("it", lambda e: e["k"] == 1)), ("no solution callback", I.drop("sol", lambda e: e["st"] == 0)),
             ("getter", I.on("ret", I.setk(gl=0))), ("wrong barrier objective", I.on("it", I.setk(lb=0))), ("iteration count", I.on("ret", lambda e: e.update(it=e["it"] + 1) if e["nsol"] else False))])
