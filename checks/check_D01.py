import glob, core
from gen_text import byt
import gen_doc as g

def show(rec):
    return {"text": bytes(rec["job"]["text"]).decode("latin-1")[:300], "stage": rec["obs"]["stage"], "error": rec["obs"].get("e", "")}

def run(c):
    exe = core.harness("doc", "san")
    r = c.rng
    def go(name, texts):
        jobs = [dict(text=byt(t), want="tree") for t in texts]
        obs = core.run_jobs(exe, jobs)
        c.conform(name, "CK_Doc", [{"job": j, "obs": o} for j, o in zip(jobs, obs)], show)
    import itertools
    go("all short texts", ["".join(t) for n in (1, 2) for t in itertools.product(g.TINY, repeat=n)]
       + (["".join(t) for t in itertools.product(g.TINY, repeat=3)] if c.tier == "thorough" else [g.tiny(r, 3) for _ in range(1500)]))
    go("random short texts", [g.tiny(r, r.randrange(4, 12)) for _ in range(c.thorough(1500, 15000))])
    docs = [g.Doc(r, r.choice([0, 0, 0, .04, .15])).document(r.choice([1, 2, 3, 3, 4])) for _ in range(c.thorough(2500, 20000))]
    go("documents", docs)
    go("damaged documents", [g.damage(r, d) for d in docs[:c.thorough(1200, 10000)]])
    def probe(texts):
        jobs = [dict(text=byt(t), want="tree") for t in texts]
        return [{"job": j, "obs": o} for j, o in zip(jobs, core.run_jobs(core.harness("doc", "plain"), jobs))]
    c.probe(probe)
