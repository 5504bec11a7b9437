import progs, replay, gen_large
from gen_small import *
from gen_prog import Prog, flat
def run(c):
    r = c.rng
    progs.go(c, "programs", [flat(Prog(r, bad=0, depth=r.choice([1, 1, 2]), generic=0).program(1, 6)) for _ in range(c.thorough(3000, 30000))], "cv")
    progs.go(c, "control flow", [flow(r).split() for _ in range(c.thorough(3000, 30000))], "cv")
    progs.go(c, "large", [gen_large.bodies(r) for _ in range(c.thorough(120, 960))], "cv")
    replay.go(c, "bodies of the model", "MC_Body", c.thorough("MC_Body", "MC_BodyLarge"), replay.bodies, c.thorough(2500, 100000), "cvm")
