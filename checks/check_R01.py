import glob, os
import core, progs, gen_large
from gen_text import *
from gen_small import *
from gen_prog import Prog, flat

SMALL = [lambda r: operation(r), literal, conversion, lazy, lazy_typed, lambda r: Names(r).program(), calls, assertions, generic, annotated, flow]

def shipped():
    out = []
    for p in sorted(glob.glob(os.path.join(core.REPO, "**", "*.bms"), recursive=True)):
        if "/_build" not in p and "/build" not in p:
            with open(p, "rb") as f: out.append(f.read().decode("latin-1"))
    return out

def run(c):
    r = c.rng
    files = shipped()
    progs.go(c, "shipped scripts", files, "c", flavour="san")
    short = [t for t in files if len(t) < 3000] or ["const a = 1;"]
    n = c.thorough(1200, 12000)
    progs.go(c, "damaged shipped scripts", [mutate_chars(r, r.choice(short)) for _ in range(n // 2)], "c", flavour="san")
    ps = [flat(Prog(r, bad=r.choice([0, .02, .1]), depth=2, annotate=.05).program(2, 3)) for _ in range(n)]
    progs.go(c, "programs", ps, "c", flavour="san")
    progs.go(c, "damaged programs", [mutate_tokens(r, t) for t in ps], "c", flavour="san")
    progs.go(c, "small programs", [x for f in SMALL for x in (f(r).split() for _ in range(n // 8))], "c", flavour="san")
    progs.go(c, "damaged small programs", [x for f in SMALL for x in (mutate_tokens(r, f(r).split()) for _ in range(n // 5))], "c", flavour="san")
    progs.go(c, "damaged characters", [mutate_chars(r, layout(r, f(r).split())) for f in SMALL for _ in range(n // 8)], "c", flavour="san")
    progs.go(c, "soup", [token_soup(r, 30) for _ in range(n)] + [char_soup(r, 30) for _ in range(n)] + [token_soup(r, 200) for _ in range(n // 10)], "c", flavour="san")
    L = [gen_large.operands, gen_large.bodies, gen_large.many_calls, gen_large.instances, gen_large.names]
    progs.go(c, "large", [f(r) for f in L for _ in range(n // 80)] + [gen_large.nesting(r) for _ in range(n // 10)], "c", flavour="san")
    progs.probe(c)
