import core
import gen_html as g

def show(rec):
    return {"ops": [o["o"] for o in rec["job"]["ops"]], "written": "".join(chr(x) for s in rec["obs"]["steps"] for x in s["out"])[:200]}

def run(c):
    c.model("MC_Html", c.thorough("MC_Html", "MC_Html5"))
    exe = core.harness("html")
    r = c.rng
    def go(name, hist):
        jobs = [{"width": r.choice([0, 1, 2, 2, 4]), "ops": h} for h in hist]
        obs = core.run_jobs(exe, jobs)
        c.conform(name, "CK_Html", [{"job": j, "obs": o} for j, o in zip(jobs, obs)], show)
    small = [h for n in (1, 2) for h in g.small(n)] + (list(g.small(3)) if c.tier == "thorough" else r.sample(list(g.small(3)), 2500))
    go("small histories", small)
    go("random histories", [g.history(r, r.choice([3, 8, 15, 30]), r.choice([0, 0, .05, .3])) for _ in range(c.thorough(1500, 15000))])
