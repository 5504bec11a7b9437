import core
from gen_text import byt
import gen_doc as g

def show(rec):
    o = rec["obs"]
    return {"text": bytes(rec["job"]["text"]).decode("latin-1")[:300], "error": o.get("e", ""), "html": bytes(o.get("html", [])).decode("latin-1")[:200]}

def run(c):
    exe = core.harness("doc")
    r = c.rng
    def go(name, texts):
        jobs = [dict(text=byt(t), want="html", width=r.choice([0, 1, 2, 4]),
                     sheets=[byt(s) for s in r.choice([[], ["/css/a.css"], ["/a.css", "/b?x=1&y=\"2\""], ["plain", ""]])]) for t in texts]
        obs = core.run_jobs(exe, jobs)
        c.conform(name, "CK_Doc", [{"job": j, "obs": o} for j, o in zip(jobs, obs)], show)
    one = []
    for d in g.ALL:                                    # every directive by itself, in every place
        for a in ["", "[class=x]", "[a=b, c=0x1F]"]:
            for b in ["", "{}", "{x}", "{ x < \\{y\\} & z }", "{\\item{a}\n\\item[k=v]{b}}", "{a \\b{c}d}", "{a\n\n\\hr\nb}", "{\\title{T & U}}"]:
                one += ["\\" + d + a + b, "\\note{\\" + d + a + b + "}", "\\b{\\" + d + a + b + "}", "x\\" + d + a + b + "y \\" + d + a + b + " z"]
    go("every directive", one if c.tier == "thorough" else r.sample(one, 900))
    go("attributes", ["\\%s[%s]{%s}" % (d, a, b) for d in ("c", "codeblock") for a in g.LANG for b in g.CODE[:5] + g.BADCODE[:3]]
       + ["\\instruction[%s]%s" % (a, b) for a in g.ARCH for b in ("{add}", "", "{a b}", "{ x/y\\{\\} }")]
       + ["\\meta{%s}%s" % (m, t) for m in ("", "\\title{a}", "\\title[x=1]{a}", "\\title[x=1]", "\\title", "\\title{a}\\title{b}", "\\title\\title{b}", "\\bmsfun{f}\\title{a /*c*/ b}\\cequiv{g}")
          for t in ("", "x", "\n\n\\meta{}", "\\h1{x}\\hr", "\\note{\\meta{}}")])
    go("documents", [g.Doc(r, r.choice([0, 0, 0, .03])).document(r.choice([1, 2, 3, 3, 4])) for _ in range(c.thorough(1800, 15000))])
