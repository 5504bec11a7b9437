import core, check_D01, gen_doc as g
import progs
from gen_text import *
from gen_small import *
from gen_prog import Prog, flat

SMALL = [lambda r: operation(r), literal, conversion, lazy_typed, lambda r: Names(r).program(), calls, assertions, generic, annotated, flow]

def run(c):
    r = c.rng
    n = c.thorough(2000, 20000)
    see = "cld"
    progs.go(c, "every typing rule", typing(), see)
    progs.go(c, "small programs", [f(r).split() for f in SMALL for _ in range(n // 5)], see)
    ps = [flat(Prog(r, bad=r.choice([.1, .2, .3]), depth=2, annotate=.05).program(2, 3)) for _ in range(n)]
    progs.go(c, "programs", ps, see)
    progs.go(c, "damaged programs", [mutate_tokens(r, t) for t in ps[:n // 2]] + [t[:r.randrange(len(t))] for t in ps[n // 2:]], see)
    progs.go(c, "damaged characters", [mutate_chars(r, layout(r, f(r).split())) for f in SMALL for _ in range(n // 20)], see)
    progs.go(c, "soup", [char_soup(r, 20) for _ in range(n // 4)] + [token_soup(r, 15) for _ in range(n // 4)], see)
    exe = core.harness("doc")
    docs = [g.Doc(r, r.choice([.04, .1, .2])).document(r.choice([1, 2, 3])) for _ in range(c.thorough(700, 7000))]
    docs += [g.damage(r, d) for d in docs] + [g.tiny(r, r.randrange(0, 6)) for _ in range(n // 4)]
    jobs = [dict(text=byt(t), want="html", width=2, sheets=[], file=byt(r.choice(["a.bmd", "x y/z.bmd"])), colors=r.randrange(2)) for t in docs]
    c.conform("documents", "CK_Doc", [{"job": j, "obs": o} for j, o in zip(jobs, core.run_jobs(exe, jobs))], check_D01.show)
