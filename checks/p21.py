"""P21: search directions solve the linearized system; multipliers are updated by the documented rule."""
import ipmlib as I
def run(c):
    I.check(c, ["basic", "fixed", "every", "elastic"], ["P21-"],
            [("wrong direction", I.on("dir", I.setk(ok=0))), ("inconsistent slack steps", I.on("dir", I.setk(rows=0))), ("dual step length", I.on("it", I.setk(ad=0))),
             ("bound multipliers", I.on("it", I.setk(du=0))), ("constraint multipliers", I.on("it", I.setk(yu=0)))])
