"""Compiling scripts and comparing the verdicts with the language specification (CK_Lang)."""
import core
from gen_text import layout, byt

def show(rec):
    o = rec["obs"]
    e = o.get("err")
    return {"text": bytes(rec["job"]["text"]).decode("latin-1")[:400],
            "verdict": [e["code"], e["sub"], e["fl"], e["cl"]] if e else o["stage"]}

def compile_all(jobs, flavour="plain", secs=10):
    obs = core.run_jobs(core.harness("lang", flavour), jobs, secs=secs)
    # an evaluation that loops forever: the specification has to agree that it gives up
    return [{"stage": "hang", "id": o["id"]} if o.get("internal") == "hang" else o for o in obs]

def go(c, name, texts, see, r=None, flavour="plain", **kw):
    """texts: strings or lists of tokens"""
    jobs = []
    for t in texts:
        extra = dict(kw)
        if isinstance(t, tuple): t, extra = t[0], dict(kw, **t[1])
        s = t if isinstance(t, str) else layout(r or c.rng, t)
        j = dict(extra, text=byt(s), want="a", see=list(see))
        if "d" in see:
            j.update(want="ad", name=byt(c.rng.choice(["f.bms", "dir/a b.bms", "-", "1:2.bms", "(internal)"])), colors=c.rng.randrange(2))
        jobs.append(j)
    obs = compile_all(jobs, flavour)
    return c.conform(name, "CK_Lang", [{"job": j, "obs": o} for j, o in zip(jobs, obs)], show)

def probe(c, strict=None, flavour="plain"):
    """The known findings among scripts; strict: the configuration without the exceptions for them."""
    def run(texts):
        jobs = [{"text": byt(t), "want": "a", "see": list("cvy")} for t in texts]
        return [{"job": j, "obs": o} for j, o in zip(jobs, compile_all(jobs, flavour))]
    c.probe(run, (lambda recs: [i for i, _ in core.conform("CK_Lang", recs, cfg=strict)[0]]) if strict else None)
