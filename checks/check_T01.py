import progs, replay
from gen_small import *
from gen_prog import Prog, flat
def run(c):
    r = c.rng
    progs.go(c, "every rule", typing(), "cvy")
    progs.go(c, "operands not evaluated", [lazy_typed(r).split() for _ in range(c.thorough(500, 3000))], "cvy")
    progs.go(c, "programs", [flat(Prog(r, bad=r.choice([.02, .02, .1, .3]), depth=r.choice([1, 2, 3])).program(2, 2))
                             for _ in range(c.thorough(2000, 20000))], "cvy")
    replay.go(c, "expressions of the model", "MC_Expr", c.thorough("MC_Expr", "MC_ExprLarge"), replay.expressions, c.thorough(3000, 60000), "cvy")
