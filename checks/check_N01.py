import progs, replay, gen_large
from gen_small import *
def run(c):
    r = c.rng
    n = c.thorough(2500, 25000)
    progs.go(c, "few names", [Names(r).program() for _ in range(n)], "cv")
    progs.go(c, "mostly right", [Names(r, .04, .05).program() for _ in range(n)], "cv")
    progs.go(c, "large", [gen_large.names(r) for _ in range(c.thorough(150, 1200))], "cv")
    replay.go(c, "programs of the model", "MC_Names", "MC_Names", replay.names, c.thorough(6000, 100000), "cv")
    if c.tier == "thorough": replay.go(c, "more programs of the model", "MC_Names", "MC_NamesForms", replay.names, 100000, "cv")
