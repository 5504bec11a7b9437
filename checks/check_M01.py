import itertools
import core
from gen_vm import Asm
from gen_values import *

def show(rec): return {"program": [i["i"] for a in rec["job"]["acts"] if a["do"] == "add" for i in a["is"]][:20],
                       "outcomes": [o.get("e", o["r"]) for o in rec["obs"]["steps"]][-6:], "steps": len(rec["obs"]["steps"])}
# the instructions of MC_VM
SMALL = [dict(i="push", v=val(BOOL, 1)), dict(i="push", v=val(INT, 1)), dict(i="push", v=val(U(1), 1)), dict(i="load", key=0),
         dict(i="store", key=0), dict(i="pop"), dict(i="return"), dict(i="assert"), dict(i="unary", op="logical_not"),
         dict(i="binary", op="binary_plus"), dict(i="binary", op="equals"), dict(i="convert", t=U(1)), dict(i="break")]
SMALL += [dict(i="jump", o=o) for o in (-2, -1, 0, 1)] + [dict(i="jump_if", o=o, x=x) for o in (-2, 1) for x in (True, False)]
SMALL += [dict(i="call", a=a) for a in range(3)]
def short(n, cycles):
    for p in itertools.product(SMALL, repeat=n):
        # jumps outside of the specification: calls behind the program are errors, all others too
        yield {"acts": [{"do": "add", "is": [dict(i, id=k + 1) for k, i in enumerate(p)]}] + [{"do": "cycle"}] * cycles}
def run(c):
    c.model("MC_VM", c.thorough("MC_VM", "MC_VM4"))
    exe = core.harness("vm", "san")
    every = list(short(1, 6)) + list(short(2, 9))
    three = list(short(3, 9))
    every += c.thorough(c.rng.sample(three, 4000), three)
    more = [{"acts": Asm(c.rng).trace(30)} for _ in range(c.thorough(4000, 40000))]
    for name, jobs in (("every short program", every), ("traces", more)):
        obs = core.run_jobs(exe, jobs)
        c.conform(name, "CK_VM", [{"job": j, "obs": o} for j, o in zip(jobs, obs)], show)
