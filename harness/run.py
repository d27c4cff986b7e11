#!/usr/bin/env python3
"""Builds what one property's check needs from /repo's working tree, runs it, writes the evidence file.

usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--only SUB] [--scale X] [--seed N] [--build-only]
Exit status: 0 held, 1 violation (with a VIOLATION line), 2 anything else.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, ".cache"))
SRC = os.path.join(REPO, "source")
INC = ["-I" + os.path.join(HERE, "stub"), "-I" + HERE, "-I" + os.path.join(SRC, "girgs/include"), "-I" + os.path.join(SRC, "hypergirgs/include")]
HIDE = ["-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-fno-gnu-unique"]
CONFIGS = {
    # the configuration of a default build (assertions on), of a Release build, and variants of it
    "dbg": ["g++", "-std=c++11", "-O2", "-g1", "-fopenmp"] + HIDE,
    "rel": ["g++", "-std=c++11", "-O3", "-DNDEBUG", "-fopenmp"] + HIDE,
    "o0": ["g++", "-std=c++11", "-O0", "-g1", "-fopenmp"] + HIDE,
    "bmi": ["g++", "-std=c++11", "-O3", "-DNDEBUG", "-fopenmp", "-DUSE_BMI2", "-mbmi2"] + HIDE,
    "bmidbg": ["g++", "-std=c++11", "-O2", "-fopenmp", "-DUSE_BMI2", "-mbmi2"] + HIDE,
    "asan": ["g++", "-std=c++11", "-O1", "-g1", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fsanitize=float-cast-overflow,bounds-strict", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"] + HIDE,
    "asanrel": ["g++", "-std=c++11", "-O1", "-g1", "-DNDEBUG", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fsanitize=float-cast-overflow,bounds-strict", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"] + HIDE,
    "tsan": ["g++", "-std=c++11", "-O1", "-g1", "-fopenmp", "-fsanitize=thread"] + HIDE,
    "tsanrel": ["g++", "-std=c++11", "-O1", "-g1", "-DNDEBUG", "-fopenmp", "-fsanitize=thread"] + HIDE,
    "cov": ["g++", "-std=c++11", "-O1", "-DNDEBUG", "-fopenmp", "-fsanitize-coverage=trace-pc"] + HIDE,
    "varzero": ["g++", "-std=c++11", "-O1", "-DNDEBUG", "-fopenmp", "-ftrivial-auto-var-init=zero"] + HIDE,
    "varpattern": ["g++", "-std=c++11", "-O1", "-DNDEBUG", "-fopenmp", "-ftrivial-auto-var-init=pattern"] + HIDE,
    "clang": ["clang++", "-std=c++11", "-O2", "-DNDEBUG", "-fopenmp=libgomp", "-fPIC", "-fvisibility=hidden"],
}
PARTS = {"girg": ("girgs", "shim_girg.cpp"), "hrg": ("hypergirgs", "shim_hrg.cpp")}


def fail(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]


def tree_digest():
    h = hashlib.sha256()
    roots = [SRC, HERE]
    for root in roots:
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            if root == SRC and os.path.relpath(d, SRC).split(os.sep)[0] in ("tests", "benchmarks"):
                continue
            for f in sorted(files):
                if root == HERE and os.path.relpath(d, HERE).split(os.sep)[0] == "props":
                    continue
                if f.endswith((".cpp", ".h", ".inl", ".hpp")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


class Builder:
    def __init__(self, tmp):
        self.tmp = tmp
        self.tree = tree_digest()
        self.props = digest([open(p).read() for p in sorted(glob.glob(os.path.join(HERE, "props", "*.cpp")))])  # included by harness/x02
        self.pool = concurrent.futures.ThreadPoolExecutor(8)
        self.objs = {}
        os.makedirs(CACHE, exist_ok=True)

    def obj(self, cmd, source, extra=None):
        """compile one source; returns a future of the object path"""
        with open(source, "rb") as f:
            key = digest(self.tree, cmd, extra or [], os.path.relpath(source, REPO), hashlib.sha256(f.read()).hexdigest(), REPO)
        if key not in self.objs:
            self.objs[key] = self.pool.submit(self._compile, key, cmd + (extra or []), source)
        return self.objs[key]

    def _compile(self, key, cmd, source):
        out = os.path.join(CACHE, key + ".o")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = subprocess.run(cmd + INC + ["-w", "-c", source, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise RuntimeError("cannot compile %s:\n%s" % (source, r.stdout[-4000:]))
            os.rename(tmp, out)
        return out

    def link(self, cmd, objs, out):
        r = subprocess.run(cmd + objs + ["-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError("cannot link %s:\n%s" % (out, r.stdout[-4000:]))
        return out

    def lib_objs(self, lib, config):
        srcs = sorted(glob.glob(os.path.join(SRC, lib, "source", "**", "*.cpp"), recursive=True))
        if not srcs:
            raise RuntimeError("no sources of " + lib)
        return [self.obj(CONFIGS[config], s) for s in srcs]

    def part_objs(self, part, config):
        lib, shim = PARTS[part]
        return self.lib_objs(lib, config) + [self.obj(CONFIGS[config], os.path.join(HERE, shim))]


def directives(path):
    res = []
    with open(path) as f:
        for line in f:
            m = re.match(r"//\s*(PLUGIN|STATIC|CLI|SOURCE|RAWSOURCE|CFLAGS|EXEFLAGS|LINKFLAGS|ENV|EXE)\s+(.*?)\s*$", line)
            if m:
                res.append((m.group(1), m.group(2).split()))
    return res


def build(prop, tmp):
    """returns list of (name, executable, env) to run"""
    main = os.path.join(HERE, "props", prop + ".cpp")
    files = [main] + sorted(glob.glob(os.path.join(HERE, "props", prop + "_*.cpp")))
    b = Builder(tmp)
    runs = []
    pending = []
    for f in files:
        env = {}; exeflags = []; cflags = []; raw = []; linkflags = []; static = []; sources = [os.path.join(HERE, "api.cpp"), os.path.join(HERE, "engine.cpp"), os.path.join(HERE, "gen.cpp")]
        plugins = []; clis = []
        for kind, a in directives(f):
            if kind == "PLUGIN":
                for c in a[1:]:
                    plugins.append((a[0], c, b.part_objs(a[0], c)))
            elif kind == "STATIC":
                static += b.part_objs(a[0], a[1])
            elif kind == "CLI":
                name, config = a[0], a[1]
                objs = [b.obj(CONFIGS[config], s) for s in sorted(glob.glob(os.path.join(SRC, "cli", name, "*.cpp")))]
                objs += b.lib_objs("girgs" if name == "gengirg" else "hypergirgs", config)
                clis.append((name, config, objs, a[2:] or [config]))
            elif kind == "SOURCE":
                sources.append(os.path.join(HERE, a[0]))
            elif kind == "RAWSOURCE":  # compiled without the flags of the executable
                raw.append(os.path.join(HERE, a[0]))
            elif kind == "CFLAGS":
                cflags += a
            elif kind == "EXEFLAGS":
                exeflags += a
            elif kind == "LINKFLAGS":
                linkflags += a
            elif kind == "ENV":
                k, v = a[0].split("=", 1); env[k] = v
        exe_cmd = ["g++", "-std=c++17", "-O2", "-g1", "-fPIC"] + exeflags
        exe_objs = [b.obj(exe_cmd + cflags, s, ["-DVP_OF=" + b.props] if os.sep + "x02" + os.sep in s else None) for s in sources + [f]]
        exe_objs += [b.obj(["g++", "-std=c++17", "-O1", "-g1", "-fPIC"], s) for s in raw]
        pending.append((f, env, exe_cmd, exe_objs, static, plugins, clis, linkflags))
    for f, env, exe_cmd, exe_objs, static, plugins, clis, linkflags in pending:
        name = os.path.splitext(os.path.basename(f))[0]
        for part, config, objs in plugins:
            out = os.path.join(tmp, "%s_%s.so" % (part, config))
            if not os.path.exists(out):
                b.link([CONFIGS[config][0]] + [x for x in CONFIGS[config] if x.startswith(("-fopenmp", "-fsanitize=", "-O"))] + ["-shared", "-Wl,-Bsymbolic"], [o.result() for o in objs], out)
            env["VP_PLUGIN_%s_%s" % (part, config)] = out
        for cli, config, objs, names in clis:
            out = os.path.join(tmp, "%s_%s" % (cli, config))
            if not os.path.exists(out):
                b.link([CONFIGS[config][0]] + [x for x in CONFIGS[config] if x.startswith(("-fopenmp", "-fsanitize=", "-O"))], [o.result() for o in objs], out)
            for n in names:
                env["VP_CLI_%s_%s" % (cli, n)] = out
        exe = os.path.join(tmp, name)
        b.link(exe_cmd, [o.result() for o in exe_objs] + [o.result() for o in static], exe) if not linkflags and not static else \
            b.link(exe_cmd + ["-Wl,--no-as-needed"], [o.result() for o in exe_objs] + [o.result() for o in static] + linkflags, exe)
        runs.append((name, exe, env))
    b.pool.shutdown()
    return runs


def main():
    args = sys.argv[1:]
    if args[0] == "--setup":  # nothing to keep between runs: every check compiles what it needs
        for tool in ("g++", "clang++"):
            subprocess.run([tool, "--version"], check=True, stdout=subprocess.DEVNULL)
        return 0
    prop = args.pop(0)
    if not os.path.exists(os.path.join(HERE, "props", prop + ".cpp")):
        fail("no such check: " + prop)
    opt = {"--tier": os.environ.get("VERIF_TIER", "quick"), "--seed": os.environ.get("VERIF_SEED", "1"), "--replay": None, "--only": None, "--scale": None, "--budget": None, "--case": None, "--shrink": None}
    flags = set()
    while args:
        a = args.pop(0)
        if a in opt:
            opt[a] = args.pop(0)
        else:
            flags.add(a)
    tier = opt["--tier"] if opt["--tier"] in ("quick", "thorough") else "quick"
    try:
        seed = int(opt["--seed"])
    except ValueError:
        seed = int(hashlib.sha256(opt["--seed"].encode()).hexdigest()[:8], 16)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    try:
        try:
            runs = build(prop, tmp)
        except Exception as e:
            fail(str(e))
        build_s = time.time() - t0
        if "--build-only" in flags:
            print("built in %.1f s" % build_s)
            return 0
        env = dict(os.environ)
        for k in list(env):
            if k.startswith(("OMP_", "GOMP_")):
                del env[k]
        env.update({"OMP_WAIT_POLICY": "passive", "OMP_DYNAMIC": "false", "OMP_NUM_THREADS": "8", "LC_ALL": "C", "TMPDIR": tmp})
        rc = 0
        merged = None
        budget = float(opt["--budget"] or (420 if tier == "quick" else 5400))
        t1 = time.time()
        runs.reverse()  # what an executable leaves of its share goes to the next ones; the main one comes last
        for i, (name, exe, e) in enumerate(runs):
            ev = os.path.join(tmp, name + ".json")
            cmd = [exe, "--tmp", tmp, "--seed", str(seed), "--tier", tier, "--evidence", ev, "--replay-dir", os.path.join(VERIF, "replays"), "--budget", str(max(20.0, budget - (time.time() - t1)) / (len(runs) - i)),
                   "--shrink", opt["--shrink"] or ("60" if tier == "quick" else "300")]
            for o in ("--only", "--scale", "--case"):
                if opt[o]:
                    cmd += [o, opt[o]]
            if "--no-fork" in flags:
                cmd += ["--no-fork"]
            if opt["--replay"]:
                with open(opt["--replay"]) as fh:
                    head = fh.read(4000)
                m = re.search(r"^binary: (.*)$", head, re.M)
                cmd += ["--replay", opt["--replay"]]
            full = dict(env); full.update(e)
            r = subprocess.run(cmd, env=full)
            if opt["--replay"]:
                if r.returncode == 1:
                    return 1
                rc = max(rc, 0 if r.returncode == 2 and len(runs) > 1 else r.returncode)
                continue
            if os.path.exists(ev):
                with open(ev) as fh:
                    data = json.load(fh)
                merged = data if merged is None else merge(merged, data)
            if r.returncode == 1:
                rc = 1
                break
            if r.returncode == 2 and opt["--only"] and len(runs) > 1:
                continue  # that sub-check is in another executable
            if r.returncode != 0:
                rc = 2
                print("check error: %s ended with %d" % (name, r.returncode), file=sys.stderr)
                break
        for line in known(prop):
            print(line)
        if merged is not None and not opt["--replay"]:
            write_evidence(prop, tier, seed, merged, time.time() - t0, build_s)
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        trim_cache()


def merge(a, b):
    r = dict(a)
    for k in ("evaluations", "distinct", "distinct_nontrivial", "outside_domain", "violations"):
        r[k] = a[k] + b[k]
    r["samples"] = a["samples"] + b["samples"]
    r["unconfirmed"] = a["unconfirmed"] + b["unconfirmed"]
    r["sub_checks"] = a["sub_checks"] + b["sub_checks"]
    r["assumptions"] = a["assumptions"] + [x for x in b["assumptions"] if x not in a["assumptions"]]
    if b["rule"] not in a["rule"]:
        r["rule"] = a["rule"] + " " + b["rule"]
    return r


def write_evidence(prop, tier, seed, d, wall, build_s):
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": d["evaluations"], "distinct_nontrivial": d["distinct_nontrivial"], "distinct": d["distinct"], "outside_domain": d["outside_domain"],
                       "rule": d["rule"], "samples": d["samples"][:24] or ["no non-trivial case among the first of each sub-check"], "sub_checks": d["sub_checks"], "unconfirmed": d["unconfirmed"],
                       "known_findings": known(prop), "repo_tree": tree_digest()[:16], "build_s": round(build_s, 1)},
          "assumptions": d["assumptions"], "wall_s": round(wall, 2), "violations": d["violations"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(path + ".tmp", path)


def known(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                res.append(line.strip())
    return res


def trim_cache():
    try:
        files = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
        files = [(os.path.getmtime(f), os.path.getsize(f), f) for f in files]
        total = sum(f[1] for f in files)
        for mt, size, f in sorted(files):
            if total < 1.5e9:
                break
            if time.time() - mt > 600:
                os.unlink(f); total -= size
    except OSError:
        pass


if __name__ == "__main__":
    sys.exit(main())
