import progs, gen_large
from gen_small import *
from gen_prog import Prog, flat
def run(c):
    r = c.rng
    progs.go(c, "calls", [calls(r).split() for _ in range(c.thorough(4000, 40000))], "cv")
    progs.go(c, "programs", [flat(Prog(r, bad=0, depth=2, generic=.1).program(4, 5)) for _ in range(c.thorough(800, 8000))], "cv")
    progs.go(c, "large", [gen_large.many_calls(r) for _ in range(c.thorough(150, 1200))], "cv")
