import progs, replay
from gen_small import *
def run(c):
    r = c.rng
    progs.go(c, "assertions", [assertions(r).split() for _ in range(c.thorough(6000, 60000))], "cmv")
    replay.go(c, "bodies of the model", "MC_Body", c.thorough("MC_BodyScope", "MC_BodyScopeLarge"), replay.bodies, c.thorough(4000, 100000), "cvm")
