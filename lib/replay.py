"""Behaviours of the bounded models (MC_Expr, MC_Body, MC_Inst, MC_Names) as scripts."""
import progs

G = "function g(x: Uint(2)) -> Uint(2) { return 1 / x; }\n"
A, B, P = ["0 as Uint(2)", "1 as Uint(2)", "3 as Uint(2)"], ["- 1", "0", "2"], ["true", "false"]
TYPE = dict(Uint2="Uint(2)", Uint3="Uint(3)", Uint1="Uint(1)", Bool="Bool", Int="Int")

def pick(r, seqs, n):
    return seqs if len(seqs) <= n else r.sample(seqs, n)

def expressions(r, seqs):
    """each as a constant, and in a function that is called or (if it has no type) only analysed"""
    out = []
    for s in seqs:
        t, e = s.split(" ", 1)
        a, b, p = r.choice(A), r.choice(B), r.choice(P)
        out.append(G + "const a = %s;\nconst b = %s;\nconst p = %s;\nconst r = %s;\n" % (a, b, p, e))
        head = "function f(a: Uint(2), b: Int, p: Bool) -> "
        if t == "-":
            out.append(G + head + "Void {\n let r = %s;\n}\n" % e)
        else:
            out.append(G + head + "%s {\n return %s;\n}\nconst r = f(%s, %s, %s);\n" % (TYPE[t], e, a, b, p))
    return out

def bodies(r, seqs):
    out = []
    for s in seqs:
        ends, body = (s.split(" ", 1) + [""])[:2]
        if not ends: continue                           # loops forever whatever the input is
        i = r.choice(ends.split(",")[1:])
        out.append("function h(u: Uint(2)) -> Uint(2) { let x = u; if x == 0 { return 3; } x = x - 1; return x; }\n"
                   "function f(p: Bool, a: Uint(2)) -> Uint(2) {\n let x = a; let y: Bool;\n %s\n return x;\n}\nconst r = f(%s, %s as Uint(2));\n" % (body, i[:-1], i[-1]))
    return out

def instances(r, seqs):
    return ["const u2 = 3 as Uint(2);\nconst u3 = 6 as Uint(3);\nfunction h(x: Uint(K)) -> Uint(K) { return x + (K as Uint(K)); }\n" + s for s in seqs]

def names(r, seqs):
    return list(seqs)

def go(c, name, module, cfg, make, n, see, **kw):
    """model-checks a model, and replays at most n of its behaviours"""
    seqs = c.explore(module, cfg)
    progs.go(c, name, make(c.rng, pick(c.rng, seqs, n)), see, **kw)
