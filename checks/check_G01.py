import progs, replay, gen_large
from gen_small import *
from gen_prog import Prog, flat
def run(c):
    r = c.rng
    progs.go(c, "generic functions", [(generic(r).split(), {"width": r.choice([1, 2, 8, 100, 128])}) for _ in range(c.thorough(3000, 30000))], "cvyim")
    progs.go(c, "programs", [flat(Prog(r, bad=r.choice([0, .02]), depth=2, generic=.9).program(3, 5)) for _ in range(c.thorough(1200, 12000))], "cvyi")
    progs.go(c, "large", [gen_large.instances(r) for _ in range(c.thorough(60, 480))], "cvyi")
    replay.go(c, "instances of the model", "MC_Inst", c.thorough("MC_Inst", "MC_InstLarge"), replay.instances, c.thorough(2500, 60000), "cvyim")
