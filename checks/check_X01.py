import progs, replay, gen_large
from gen_small import *
def run(c):
    r = c.rng
    progs.go(c, "nested operands", [lazy(r).split() for _ in range(c.thorough(4000, 40000))], "cvy")
    progs.go(c, "operands not evaluated", [lazy_typed(r).split() for _ in range(c.thorough(600, 5000))], "cvy")
    progs.go(c, "large", [gen_large.operands(r) for _ in range(c.thorough(120, 960))], "cv")
    replay.go(c, "expressions of the model", "MC_Expr", c.thorough("MC_ExprTyped", "MC_ExprTypedLarge"), replay.expressions, c.thorough(2000, 60000), "cvy")
