"""P04: iterates stay strictly inside the bounds; boundary rule, moving limits."""
import ipmlib as I
def run(c):
    I.check(c, ["basic", "elastic", "every", "fixed"], ["P04-"],
            [("outside the bounds", I.on("cb", I.setk(bnd=0))), ("slack not matching", I.on("it", I.setk(sl=0))), ("too close to the boundary", I.on("it", I.setk(bf=0))),
             ("off the direction", I.on("it", I.setk(st=0), skip=1)), ("non-positive multiplier", I.on("it", I.setk(zp=0))), ("beyond the moving limit", I.on("it", I.setk(ml=0)))])
