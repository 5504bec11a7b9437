import core, itertools, progs
from gen_values import *
from gen_small import operation

def small(c):
    """Every operator on every pair of small values, known or unknown."""
    types = [VOID, BOOL, INT] + [U(n) for n in c.thorough((1, 2, 3), (1, 2, 3, 4))]
    vs = []
    for t in types:
        dom = {"Void": [0], "Bool": [0, 1], "Int": range(-5, c.thorough(10, 18))}.get(t[0])
        for v in (range(2 ** t[1]) if dom is None else dom):
            vs.append(val(t, v))
        vs.append(unk(t))
    jobs = []
    for x, y in itertools.product(vs, vs):
        for op in BIN:
            jobs.append({"k": "bin", "op": op, "x": x, "y": y})
    for x in vs:
        for op in UN:
            jobs.append({"k": "un", "op": op, "x": x})
        for t in types:
            jobs.append({"k": "conv", "x": x, "to": t})
    cs = [val(BOOL, 0), val(BOOL, 1), unk(BOOL), val(INT, 1), val(U(1), 1), val(VOID, 0)]
    for x, y in itertools.product(vs[::2], vs[::2]):
        for k in cs:
            jobs.append({"k": "if", "x": x, "c": k, "y": y})
    return jobs

def wide(c, n):
    r = c.rng
    jobs = []
    def other(t):
        k = r.random()
        return t if k < .6 else INT if k < .85 else rtype(r)
    def hide(v, p=.08):
        return unk(v["t"]) if r.random() < p else v
    for _ in range(n):
        t = rtype(r)
        u = other(t)
        x, y = rval(r, t), rval(r, u)
        k = r.random()
        if k < .8:
            op = r.choice(BIN)
            if op in SHIFT and t[0] == "Uint":
                y = rshift(r, t)
            jobs.append({"k": "bin", "op": op, "x": hide(x), "y": hide(y)})
        elif k < .9:
            jobs.append({"k": "un", "op": r.choice(UN), "x": hide(x)})
        elif k < .95:
            jobs.append({"k": "if", "x": hide(x), "c": hide(val(BOOL, r.randrange(2))), "y": hide(y)})
        else:
            jobs.append({"k": "conv", "x": hide(x), "to": u})
    return jobs

def show(rec):
    def v(j): return "%s:%s" % (unbig(j["v"]) if "v" in j else "?", "".join(map(str, j["t"])))
    j, o = rec["job"], rec["obs"]
    return {"case": [j["k"], j.get("op", "")] + [v(j[k]) for k in ("x", "c", "y") if k in j] + ["".join(map(str, j.get("to", "")))],
            "observed": v(o["pr"]["v"]) if o["pr"]["ok"] else o["pr"]["e"]}

def direct(c):
    exe = core.harness("ops")
    for name, jobs in (("small operands", small(c)), ("wide operands", wide(c, c.thorough(24000, 200000)))):
        obs = core.run_jobs(exe, jobs)
        c.conform(name, "CK_Ops", [{"job": j, "obs": o} for j, o in zip(jobs, obs)], show)

def run(c):
    c.model("MC_BigInt")
    c.model("MC_Values")
    c.model("MC_Partial")
    direct(c)
    progs.go(c, "operations in scripts", [operation(c.rng).split() for _ in range(c.thorough(4000, 40000))], "cvy")
    c.assumptions += ["Int results beyond 128 bits are outside the property",
                      "negative Int operands meeting Uint(128) are the known finding of V02"]
