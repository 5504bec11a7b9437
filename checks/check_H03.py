import core, glob
from gen_text import *
from gen_doc import CODE, BADCODE

def show(rec):
    return {"text": bytes(rec["job"]["text"]).decode("latin-1")[:200], "verdict": rec["obs"]["verdict"], "html": bytes(rec["obs"]["html"]).decode("latin-1")[:300]}

def run(c):
    exe = core.harness("doc")
    r = c.rng
    def go(name, texts):
        jobs = [dict(text=byt(t), want="code") for t in texts]
        obs = core.run_jobs(exe, jobs)
        c.conform(name, "CK_Code", [{"job": j, "obs": o} for j, o in zip(jobs, obs)], show)
    gaps = ["", " ", "\n", "\t", "  \n\n ", "\r\n", " /* < & */ ", "// >\n"]
    toks = KW + SYM + LIT + IDS + STR
    go("pairs of tokens", [g + a + r.choice(gaps) + b + r.choice(gaps) for a in toks for b in (toks if c.tier == "thorough" else r.sample(toks, 8)) for g in [r.choice(gaps)]])
    go("snippets", CODE + BADCODE + [a + g + b for a in CODE + BADCODE for b in r.sample(CODE + BADCODE, 6) for g in gaps[:4]])
    progs = [Gram(r, r.choice([2, 3, 4])).program(2) for _ in range(c.thorough(700, 8000))]
    go("programs", [layout(r, t) for t in progs])
    go("damaged programs", [layout(r, mutate_tokens(r, t)) for t in progs])
