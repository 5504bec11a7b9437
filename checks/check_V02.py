import progs
from gen_small import *
def run(c):
    r = c.rng
    n = c.thorough(1500, 15000)
    progs.go(c, "literals", [literal(r).split() for _ in range(n)], "cvy")
    progs.go(c, "conversions", [conversion(r).split() for _ in range(2 * n)], "cvy")
    progs.go(c, "every width", ["const r = %s as Uint ( %d ) ;" % (spell(v), w) for w in range(1, 129) for v in
                                [0, 1, -1, (1 << w) - 1, 1 << w, (1 << w) + 1, (1 << (w - 1)), -(1 << (w - 1)), -(1 << w)] if -(1 << 126) <= v < 1 << 127], "cvy")
    progs.probe(c, "CK_LangStrict")
