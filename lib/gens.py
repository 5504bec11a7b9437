"""Generating code from scripts and comparing it with the specification (CK_Gen)."""
import core
from gen_text import layout, byt

def show(rec):
    o, j = rec["obs"], rec["job"]
    return {"text": bytes(j["text"]).decode("latin-1")[:300], "lang": j["lang"], "stage": o["stage"],
            "code": bytes(o.get("text", [])).decode("latin-1")[:300]}

def options(r, lang):
    k = lambda p=.5: int(r.random() < p)
    c23 = k()
    return dict(lang=lang, char=r.choice([32, 32, 9]), size=r.choice([0, 1, 2, 4, 4, 8]), fn=k(), iff=k(), paren=k(.3),
                c23=c23, bitint=c23 if k() else k())

def go(c, name, programs, langs, flavour="plain"):
    r = c.rng
    jobs = [dict(options(r, l), text=byt(layout(r, p))) for p in programs for l in langs]
    obs = core.run_jobs(core.harness("codegen", flavour), jobs)
    return c.conform(name, "CK_Gen", [{"job": j, "obs": o} for j, o in zip(jobs, obs)], show)

def run(c, langs):
    from gen_code import pairs, programs, deep, statements, widths, random_program
    r, n = c.rng, c.thorough(1, 8)
    go(c, "every form in every form", list(programs(r, [p for _ in range(n) for p in pairs(r)])), langs)
    go(c, "nested forms", list(programs(r, [(k, deep(r, k, 3)) for k in "BIUW" for _ in range(150 * n)])), langs)
    go(c, "statements", [statements(r) for _ in range(200 * n)], langs)
    go(c, "widths", [widths(r) for _ in range(250 * n)], langs)
    go(c, "programs", [random_program(r) for _ in range(300 * n)], langs)
