import core
from gen_text import *

def jobs_for(texts): return [{"text": byt(t), "want": "t"} for t in texts]
def show(rec): return {"text": bytes(rec["job"]["text"]).decode("latin-1"), "answer": rec["obs"].get("e", rec["obs"]["stage"])}

def run(c):
    c.model("MC_Lex")
    c.model("MC_Lex", "MC_Lex2")
    exe = core.harness("lang")
    r = c.rng
    def go(name, texts):
        jobs = jobs_for(texts)
        obs = core.run_jobs(exe, jobs)
        c.conform(name, "CK_Text", [{"job": j, "obs": o} for j, o in zip(jobs, obs)], show)
    go("short texts", [s for a, n in (("/*\n\"\\a", 4), ("<>=-&|!", 3), ("0b1x9a_", 4), ("0x8f \t", 3)) for s in short_strings(a, n + c.thorough(0, 1))])
    go("every character", [pre + chr(b) + post for b in range(256) for pre in ("", "a", "1", "\"", "/*") for post in ("", "1")])
    go("every pair of tokens", [a + s + b for a in KW + SYM + ["12", "0x1f", "x", "\"s\"", "/**/"] for b in KW[:6] + SYM + ["012", "_y", "\"t\"", "//"] for s in ("", " ")])
    go("token soup", [token_soup(r, 14) for _ in range(c.thorough(5000, 60000))])
    go("character soup", [char_soup(r, 20) for _ in range(c.thorough(5000, 60000))])
    n = c.thorough(800, 8000)
    g = [layout(r, Gram(r, 3).program()) for _ in range(n)]
    go("programs and damaged programs", g + [mutate_chars(r, t) for t in g for _ in range(2)])
