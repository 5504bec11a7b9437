"""Running the harness programs and TLC; evidence; verdicts."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build as _build
REPO = _build.REPO
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = 8
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class Machinery(Exception):
    """The check itself could not decide."""

# ---------------------------------------------------------------- harness
def _run_shard(exe, args, jobs, env, wall):
    """One process per shard; a process that dies is restarted after the job that killed it."""
    out, i = {}, 0
    while i < len(jobs):
        text = "\n".join(json.dumps(j) for j in jobs[i:]) + "\n"
        try:
            p = subprocess.run([exe] + args, input=text.encode("latin-1", "replace"), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, env=env, timeout=wall)
            rc, so, se = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, so, se = -999, e.stdout or b"", e.stderr or b""
        n = 0
        for line in so.decode("latin-1").splitlines():
            if not line.startswith("{"):
                continue
            try:
                o = json.loads(line)
            except ValueError:
                continue
            if "id" in o and o["id"] == jobs[i + n]["id"]:
                out[o["id"]] = o
                n += 1
                if i + n >= len(jobs):
                    break
        i += n
        if i < len(jobs):
            if rc == 0 and n > 0:      # stopped itself (hang report); go on behind it
                continue
            err = se.decode("latin-1")
            m = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: .*|Assertion .* failed.*|terminate called.*)", err)
            out[jobs[i]["id"]] = {"id": jobs[i]["id"], "internal": "timeout" if rc == -999 else "crash",
                                  "what": ("rc=%d " % rc) + (m.group(1)[:300] if m else err[-300:])}
            i += 1
    return out

def run_jobs(exe, jobs, secs=10, shards=NCPU, wall=800):
    """Returns the observations in the order of the jobs; each job gets an id."""
    for n, j in enumerate(jobs):
        j["id"] = n
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=0", LC_ALL="C")
    parts = [jobs[k::shards] for k in range(shards)]
    res = {}
    with cf.ThreadPoolExecutor(shards) as ex:
        for r in ex.map(lambda p: _run_shard(exe, [str(secs)], p, env, wall) if p else {}, parts):
            res.update(r)
    return [res[j["id"]] for j in jobs]

# ---------------------------------------------------------------- TLC
def tlc(module, cfg=None, workers=1, env=None, heap="2g", timeout=850, extra=(), stack="64m"):
    meta = tempfile.mkdtemp(prefix="tlc-")
    try:
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        gc = "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC"
        cmd = ["java", "-Xss" + stack, "-Xmx" + heap, gc, "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
               "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", (cfg or module) + ".cfg"]
        p = subprocess.run(cmd + list(extra) + [module + ".tla"], cwd=os.path.join(HERE, "spec"), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    st = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return p.returncode, out, st

def model_check(module, cfg=None, workers=NCPU, **kw):
    """Model-checks a specification on its own; its failure is an error of the machinery."""
    rc, out, st = tlc(module, cfg, workers=workers, heap="8g", **kw)
    if rc != 0 or "No error has been found" not in out:
        raise Machinery("TLC on %s: rc=%d\n%s" % (module, rc, out[-3000:]))
    return {"spec": cfg or module, "states": st[1], "transitions": st[0]}

def explored(module, cfg=None, prefix="SEQ", **kw):
    """Model-checks a specification that prints behaviours while TLC explores it; returns these as well."""
    rc, out, st = tlc(module, cfg, workers=NCPU, heap="8g", **kw)
    if rc != 0 or "No error has been found" not in out:
        raise Machinery("TLC on %s: rc=%d\n%s" % (cfg or module, rc, out[-3000:]))
    seqs = sorted({l.strip('"').split(" ", 1)[1] if " " in l else "" for l in out.splitlines() if l.startswith('"' + prefix)})
    return {"spec": cfg or module, "states": st[1], "transitions": st[0]}, seqs

def generated(module, cfg, prefix="SEQ", **kw):
    return explored(module, cfg, prefix, **kw)[1]

def conform(module, records, shards=NCPU, cfg=None, timeout=850, heap="3g"):
    """Lets TLC consume the records (one step each).  Returns (rejections, states, transitions), a
    rejection being (index of the record, what TLC printed)."""
    if not records:
        return [], 0, 0
    shards = max(1, min(shards, (len(records) + 39) // 40))
    work = tempfile.mkdtemp(prefix="conf-")
    bad, gen, dist = [], 0, 0
    try:
        def one(k):
            idx = list(range(k, len(records), shards))
            path = os.path.join(work, "t%d.ndjson" % k)
            with open(path, "w") as f:
                for i in idx:
                    f.write(json.dumps(records[i], separators=(",", ":")) + "\n")
            for attempt in (1, 2):
                rc, out, st = tlc(module, cfg, env={"TRACE": path}, timeout=timeout, heap=heap)
                if rc == 0 and "No error has been found" in out:
                    break
            else:
                raise Machinery("TLC on %s: rc=%d\n%s" % (module, rc, out[-3000:]))
            b = []
            for line in out.splitlines():
                if line.startswith('"BAD '):
                    try:
                        s = json.loads(line)
                    except ValueError:
                        s = line.strip('"')
                    _, n, rest = s.split(" ", 2)
                    b.append((idx[int(n) - 1], rest))
            return b, st
        with cf.ThreadPoolExecutor(shards) as ex:
            for b, st in ex.map(one, range(shards)):
                bad += b
                gen += st[0]
                dist += st[1]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return sorted(bad), dist, gen

# ---------------------------------------------------------------- known findings
def known_findings():
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        return [json.loads(l[len("known:"):]) for l in f if l.startswith("known:")]

def brief(o):
    """What an observation says, in a readable form."""
    if "internal" in o:
        return {"internal": o["internal"]}
    b = {"stage": o["stage"]}
    if "err" in o:
        b["error"] = o["err"]["code"]
    if "consts" in o:
        def val(v):
            n = sum(d << (12 * i) for i, d in enumerate(v["v"]["m"])) * (-1 if v["v"]["n"] else 1)
            t = v["t"]
            return "%s %d" % ("Uint(%d)" % t[1] if t[0] == "Uint" else t[0], n)
        b["consts"] = [{"n": c["n"], "v": val(c["v"])} for c in o["consts"]]
    return b

# ---------------------------------------------------------------- verdicts
class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.rng = random.Random("%s/%d/%s" % (prop, SEED, tier))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.models, self.parts, self.assumptions, self.violations, self.known = [], {}, [], [], []

    def thorough(self, q, t):
        return t if self.tier == "thorough" else q

    def model(self, module, cfg=None, **kw):
        m = model_check(module, cfg, **kw)
        self.models.append(m)
        self.cov["states"] += m["states"]
        self.cov["transitions"] += m["transitions"]

    def explore(self, module, cfg=None, **kw):
        """The same, for a model that prints its behaviours; returns them."""
        m, seqs = explored(module, cfg, **kw)
        self.models.append(m)
        self.cov["states"] += m["states"]
        self.cov["transitions"] += m["transitions"]
        return seqs

    def conform(self, name, module, records, describe=None, confirm=None, **kw):
        """records: {"job":…, "obs":…}.  Internal failures are violations of their own."""
        good, recs = [], []
        for r in records:
            if "internal" in r["obs"]:
                self.violation(name, r, "the implementation failed internally: %s %s" %
                               (r["obs"]["internal"], r["obs"].get("what", "")))
            else:
                recs.append(r)
        bad, st, tr = conform(module, recs, **kw)
        if bad:                               # a rejection counts only if it is repeated
            again, _, _ = conform(module, [recs[i] for i, _ in bad], **kw)
            bad = [bad[i] for i, _ in again]
        for i, what in bad:
            if confirm and not confirm(recs[i]):
                continue
            self.violation(name, recs[i], what)
        self.cov["states"] += st
        self.cov["transitions"] += tr
        self.cov["traces_validated_against_impl"] += len(recs)
        p = self.parts.setdefault(name, {"records": 0, "rejected": 0})
        p["records"] += len(recs)
        p["rejected"] += len(bad)
        if recs:
            for r in self.rng.sample(recs, min(2, len(recs))):
                s = json.dumps(describe(r) if describe else r)
                if len(self.cov["samples"]) < 12:
                    self.cov["samples"].append(s[:600])
        return bad

    def probe(self, run, judge=None):
        """Runs the inputs of the known findings of this property.  run: texts -> records; judge: records that are rejected
        by the property as it is stated (default: internal failures only).  Exactly what is listed is a finding."""
        known = [k for k in known_findings() if k["property"] == self.prop]
        recs = run(["".join(t * n for t, n in k["input"]) for k in known])
        failed = [i for i, r in enumerate(recs) if "internal" in r["obs"]]
        rest = [i for i in range(len(recs)) if i not in failed]
        if judge:
            failed += [rest[i] for i in judge([recs[i] for i in rest])]
        for i, (k, r) in enumerate(zip(known, recs)):
            if i not in failed:
                continue
            if brief(r["obs"]) == k["observed"]:
                self.finding("%s: %s" % (k["id"], k["what"]))
            else:
                self.violation("known findings", {"job": {"input": k["input"]}, "obs": brief(r["obs"])}, "what the property says, or at least what is known: %s" % k["observed"])
        self.parts["known findings"] = {"records": len(recs), "rejected": len(failed)}

    def violation(self, name, record, what):
        self.violations.append((name, record, what))

    def finding(self, text):
        self.known.append(text)

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level,
              "coverage": dict(self.cov, models=self.models, parts=self.parts),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        print("%s %s: %d states, %d transitions, %d observations checked, %.0f s" % (
            self.prop, self.tier, self.cov["states"], self.cov["transitions"],
            self.cov["traces_validated_against_impl"], time.time() - self.t0))
        if not self.violations:
            return 0
        rdir = os.path.join(HERE, "build", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, self.prop + ".json")
        with open(path, "w") as f:
            json.dump([{"part": n, "record": r, "expected": w} for n, r, w in self.violations[:200]], f, indent=1)
        for n, r, w in self.violations[:5]:
            job = r.get("job", r)
            if isinstance(job.get("text"), list):
                job = dict(job, text="".join(map(chr, job["text"])))
            print("  [%s] %s\n    observed %s\n    expected %s" % (
                n, json.dumps(job)[:700], json.dumps(r.get("obs", ""))[:500], w[:500]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1

def harness(name, flavour="plain"):
    try:
        return _build.build([name], flavour)[name]
    except SystemExit as e:
        raise Machinery(str(e))
