import progs
from gen_small import *
def run(c):
    r = c.rng
    n = c.thorough(2500, 25000)
    progs.go(c, "wrong kinds", [Names(r, .01, .3).program() for _ in range(n)], "cv")
    progs.go(c, "mostly right", [Names(r, .01, .03).program() for _ in range(n)], "cv")
