import core, gen_large
from gen_text import *

SPELL = dict(identifier="x", decimal_literal="7", keyword_true="true", string_literal='"s"', plus="+", multiplication="*", logical_not="!", equals="==", logical_and="&&",
             left_parenthesis="(", right_parenthesis=")", left_brace="{", right_brace="}", comma=",", colon=":", semicolon=";", assign="=", at="@", right_arrow="->")
def spelled(kind, r):
    """a token of the kind, or of one that the grammar treats alike"""
    if kind.startswith("keyword_"):
        return {"uint": "Uint", "int": r.choice(["Int", "Bool", "Void"]), "true": r.choice(["true", "false"]), "break": r.choice(["break", "continue"])}.get(kind[8:], kind[8:])
    return {"identifier": r.choice(["x", "y", "zz"]), "decimal_literal": r.choice(["7", "0x1F", "0b1", "017"]), "plus": r.choice("+-"), "multiplication": r.choice("*/%"),
            "logical_not": r.choice("!~"), "equals": r.choice(["==", "!=", "<", ">", "<=", ">="]), "logical_and": r.choice(["&&", "||", "&", "|", "^", "<<", ">>"])}.get(kind) or SPELL[kind]

def show(rec): return {"text": bytes(rec["job"]["text"]).decode("latin-1"), "stage": rec["obs"]["stage"]}

def run(c):
    c.model("MC_Grammar", c.thorough("MC_Grammar", "MC_Grammar7"))
    exe = core.harness("lang")
    r = c.rng
    def go(name, texts, **kw):
        jobs = [dict(kw, text=byt(t), want="p") for t in texts]
        obs = core.run_jobs(exe, jobs)
        c.conform(name, "CK_Text", [{"job": j, "obs": o} for j, o in zip(jobs, obs)], show)
    seqs = core.generated("MC_Grammar", "MC_GrammarGen")
    if c.tier == "quick": seqs = r.sample(seqs, min(len(seqs), 8000))
    go("sequences of the model", [" ".join(spelled(k, r) for k in s.split()) for s in seqs])
    progs = [Gram(r, r.choice([2, 3, 3, 4, 5])).program(3) for _ in range(c.thorough(3000, 30000))]
    go("sentences of the grammar", [layout(r, t) for t in progs], sentence=True)
    go("damaged sentences", [layout(r, mutate_tokens(r, t)) for t in progs for _ in range(c.thorough(2, 3))])
    big = [f(r) for f in (gen_large.operands, gen_large.bodies, gen_large.many_calls) for _ in range(c.thorough(8, 60))] + [gen_large.nesting(r) for _ in range(c.thorough(60, 500))]
    go("large", big)
