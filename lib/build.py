"""Builds the library of /repo's working tree and the harness programs, out of tree."""
import glob, hashlib, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")

COMMON = "-std=c++20 -g1 -w -D_GLIBCXX_ASSERTIONS"
FLAVOURS = {
    "plain": COMMON + " -O1",
    "san": COMMON + " -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all",
}

def build(programs, flavour="plain"):
    """programs: names of harness/*.cpp, or 'bm-cli'. Returns {name: path}."""
    out = os.path.join(BUILD, flavour)
    os.makedirs(out, exist_ok=True)
    flags = "%s -I%s -I%s/src -I%s/harness" % (FLAVOURS[flavour], REPO, REPO, HERE)
    lib = sorted(f for f in glob.glob(REPO + "/src/**/*.cpp", recursive=True)
                 if not f.startswith((REPO + "/src/test/", REPO + "/src/cli/")))
    lines = ["ninja_required_version = 1.3", "builddir = " + out,
             "rule cxx", "  command = g++ -MMD -MF $out.d %s -c $in -o $out" % flags,
             "  depfile = $out.d", "  deps = gcc",
             "rule ar", "  command = rm -f $out && ar rcs $out $in",
             "rule link", "  command = g++ %s $in -o $out" % FLAVOURS[flavour]]
    def obj(f, sub):
        o = os.path.join(out, sub, os.path.relpath(f, REPO if sub != "h" else HERE).replace("/", "_") + ".o")
        lines.append("build %s: cxx %s" % (o, f))
        return o
    libobjs = [obj(f, "l") for f in lib]
    libbm = os.path.join(out, "libbm.a")
    lines.append("build %s: ar %s" % (libbm, " ".join(libobjs)))
    res = {}
    for p in programs:
        exe = os.path.join(out, p)
        if p == "bm-cli":
            objs = [obj(f, "c") for f in sorted(glob.glob(REPO + "/src/cli/*.cpp"))]
        else:
            objs = [obj(os.path.join(HERE, "harness", p + ".cpp"), "h")]
        lines.append("build %s: link %s %s" % (exe, " ".join(objs), libbm))
        res[p] = exe
    nf = os.path.join(out, "build-%s.ninja" % hashlib.md5(" ".join(programs).encode()).hexdigest()[:8])
    with open(nf, "w") as f:
        f.write("\n".join(lines) + "\n")
    env = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPPFLAGS")}
    r = subprocess.run(["ninja", "-f", nf] + list(res.values()), cwd=out, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise SystemExit("build failed")
    return res

if __name__ == "__main__":
    print(build(sys.argv[2:], sys.argv[1]))
