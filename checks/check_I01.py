import concurrent.futures as cf, os, re, shutil, subprocess, tempfile
import core, gen_doc as gd, check_R01, check_I02
from gen_text import *
from gen_prog import Prog, flat
from gen_code import random_program, widths

ANSI = re.compile(rb"\x1b\[[0-9;]*m")
LANGS = ["bms", "BMS", "c", "C", "c++", "C++", "cpp", "cxx"]
OTHERS = ["rs", "rust", "Rust", "java", "Java", "kotlin", "Kotlin", "kt", "js", "JS", "javascript", "JavaScript", "ts", "TS", "TypeScript",
          "", "Bms", "bms ", "c+", "python", "typescript"]

def one(exe, job, top):
    """Runs the program in a directory of its own."""
    d = tempfile.mkdtemp(dir=top)
    try:
        name = job["name"]
        path = os.path.join(d, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if job["kind"] == "file":
            with open(path, "wb") as f: f.write(bytes(job["text"]))
        elif job["kind"] == "directory":
            os.makedirs(path)
        args = [job["cmd"], name, *job["more"]][:job["args"]] if job["args"] < 3 else [job["cmd"], name, *job["more"]]
        out = os.path.join(d, "out.html")
        sink = job["sink"]
        if job["cmd"] == "html" and sink != "stdout":
            if sink == "file" and job["old"]:
                with open(out, "w") as f: f.write("x" * job["old"])
            if sink == "closed": os.makedirs(out)
            args = args[:2] + [{"file": out, "closed": out, "absent": os.path.join(d, "no", "out.html"), "full": "/dev/full"}[sink]]
        stdout = open("/dev/full", "wb") if sink == "full" and job["cmd"] != "html" else subprocess.PIPE
        try:
            p = subprocess.run([exe] + args, cwd=d, stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE, timeout=60)
            rc, so, se = p.returncode, p.stdout or b"", p.stderr
        except subprocess.TimeoutExpired:
            return {"internal": "hang"}
        o = {"rc": rc, "out": list(ANSI.sub(b"", so)), "err": list(ANSI.sub(b"", se)), "file": []}
        if job["cmd"] == "html" and sink == "file" and os.path.isfile(out):
            with open(out, "rb") as f: o["file"] = list(f.read())
        return o
    finally:
        shutil.rmtree(d, ignore_errors=True)

def show(rec):
    j, o = rec["job"], rec["obs"]
    return {"args": [j["cmd"], j["name"]] + j["more"], "sink": j["sink"], "text": bytes(j["text"]).decode("latin-1")[:150], "status": o["rc"],
            "output": bytes(o["out"]).decode("latin-1")[:150]}

def run(c):
    c.model("MC_Cli")
    exe = core._build.build(["bm-cli"], "plain")["bm-cli"]
    r = c.rng
    top = tempfile.mkdtemp(prefix="cli-")
    def go(name, jobs):
        try:
            with cf.ThreadPoolExecutor(core.NCPU) as ex:
                obs = list(ex.map(lambda j: one(exe, j, top), jobs))
        finally:
            for x in os.listdir(top): shutil.rmtree(os.path.join(top, x), ignore_errors=True)
        c.conform(name, "CK_Cli", [{"job": j, "obs": o} for j, o in zip(jobs, obs)], show)
    def job(cmd, text, name, kind="file", sink=None, more=(), args=3):
        sfx = "bms" if name.endswith(".bms") else "bmd" if name.endswith(".bmd") else "other"
        if sink is None: sink = r.choice(["stdout", "file"]) if cmd == "html" else "stdout"
        return dict(cmd=cmd, text=byt(text), name=name, suffix=sfx, kind=kind, sink=sink, more=list(more), args=args,
                    lang=more[0] if more else "", old=r.choice([0, 0, 5000]))
    def script():
        k = r.random()
        if k < .5: return layout(r, flat(Prog(r, bad=r.choice([0, 0, .1]), depth=2).program(2, 2)))
        if k < .8: return layout(r, r.choice(check_I02.SMALL)(r).split())
        return mutate_chars(r, layout(r, r.choice(check_I02.SMALL)(r).split()))
    def doc():
        d = gd.Doc(r, r.choice([0, 0, .05])).document(r.choice([1, 2, 3]))
        return d if r.random() < .8 else gd.damage(r, d)
    NAMES = ["a", "b c", "dir/x", "x.bmd", "x.bms", "", "a.b.c"]
    def bms(): return r.choice(NAMES) + ".bms"
    def bmd(): return r.choice(NAMES) + ".bmd"
    n = c.thorough(250, 3000)
    try:
        go("verify", [job("verify", script(), bms()) for _ in range(2 * n)] + [job("verify", t, "a.bms") for t in check_R01.shipped()])
        go("dump_tokens", [job("dump_tokens", layout(r, Gram(r).program()) if r.random() < .5 else script(), bms()) for _ in range(n)])
        go("dump_ast", [job("dump_ast", script(), bms()) for _ in range(n)] + [job("dump_ast", doc(), bmd()) for _ in range(n // 2)])
        go("html", [job("html", doc(), bmd()) for _ in range(2 * n)])
        def source():
            if r.random() < .4: return script()
            return layout(r, random_program(r) if r.random() < .5 else widths(r))
        go("generate", [job("generate", source(), bms(), more=[r.choice(LANGS)]) for _ in range(n)]
           + [job("generate", source(), bms(), more=[x]) for x in LANGS]
           + [job("generate", "const x = 1;", bms(), more=[x]) for x in OTHERS])
        CM = ["verify", "dump_tokens", "dump_ast", "html", "generate"]
        odd = []
        for cmd in CM + ["", "Verify", "help", "--help", "-h", "dump", "tokens"]:
            for name in ["a.bms", "a.bmd", "a", "a.BMS", "a.bms ", "bms", "a.bm"]:
                for kind in ["file", "missing", "directory"]:
                    for m in [[], ["bms"], ["rust"]]:
                        if not (m and cmd == "html") and (cmd == "generate" or m != ["rust"]): odd.append(job(cmd, "const x = 1;", name, kind, "stdout", m, 3 if m else 2))
        odd += [job(cmd, "const x = 1;", "a.bms", args=k, sink="stdout") for cmd in CM for k in (0, 1)]
        odd += [job(cmd, "const x = 1;", "a.bm" + x, sink="full", more=["bms"]) for cmd in CM for x in "sd"]
        odd += [job("html", "\\b{x}", "a.bm" + x, k, sink=s) for x in "sd" for k in ("file", "missing", "directory") for s in ("stdout", "file", "closed", "absent", "full")]
        go("command lines", odd)
    finally:
        shutil.rmtree(top, ignore_errors=True)
