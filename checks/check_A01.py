import progs
from gen_small import *
from gen_prog import Prog, flat
def run(c):
    r = c.rng
    progs.go(c, "annotations", [annotated(r).split() for _ in range(c.thorough(5000, 50000))], "cv")
    progs.go(c, "annotated programs", [flat(Prog(r, bad=0, depth=1, annotate=.4).program(2, 3)) for _ in range(c.thorough(600, 6000))], "cv")
