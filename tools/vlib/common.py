"""Shared plumbing of the checks: building cmmc, running TLC, verdicts, evidence."""
import json, os, subprocess, sys, time, shutil, hashlib, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("CMMC_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
NCPU = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def build(targets=("cmmc",), variant="rel", flags="-O1", defines=""):
    """build /repo's working tree (out of tree, under WORK); returns the build directory"""
    b = os.path.join(WORK, "build-" + variant)
    os.makedirs(b, exist_ok=True)
    env = dict(os.environ, LC_ALL="C.UTF-8", PATH="/usr/sbin:/usr/bin:/sbin:/bin")
    cc = os.path.join(WORK, "ccache")
    launcher = ""
    if os.path.exists("/usr/bin/ccache"):
        env.update(CCACHE_DIR=cc, CCACHE_MAXSIZE="2G", CCACHE_SLOPPINESS="time_macros,include_file_mtime,include_file_ctime",
                   CCACHE_NOHASHDIR="1")
        env.pop("CCACHE_DISABLE", None)
        launcher = "/usr/bin/ccache "
    rule = launcher + "<CMAKE_CXX_COMPILER> <DEFINES> <INCLUDES> <FLAGS> -march=x86-64 -Wno-error -w -g0 %s %s -o <OBJECT> -c <SOURCE>" % (flags, defines)
    rulec = launcher + "<CMAKE_C_COMPILER> <DEFINES> <INCLUDES> <FLAGS> -march=x86-64 -Wno-error -w -g0 %s -o <OBJECT> -c <SOURCE>" % flags
    cmd = ["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DCMMC_LLVM_SUPPORT=OFF",
           "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++", "-DPython3_EXECUTABLE=/usr/bin/python3",
           "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_CXX_COMPILE_OBJECT=" + rule, "-DCMAKE_C_COMPILE_OBJECT=" + rulec]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        die("cmake failed:\n" + r.stdout[-3000:])
    r = subprocess.run(["ninja", "-C", b] + list(targets), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        die("build failed:\n" + r.stdout[-3000:])
    log("built", variant)
    return b


def harness(name, flags=()):
    """compile harness/<name>.cpp (stands alone, not linked with the repository)"""
    src = os.path.join(VERIF, "harness", name + ".cpp")
    out = os.path.join(WORK, name)
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        r = subprocess.run(["g++", "-O2", "-std=c++20", src, "-o", out] + list(flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            die("harness:\n" + r.stdout[-3000:])
    return out


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def scratch(name):
    d = os.path.join(WORK, "run", name + "-%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


TLCJAR = "/opt/veriftools/tla/tla2tools.jar"


def tlc_classpath():
    import glob
    cp = [TLCJAR] + sorted(glob.glob("/opt/veriftools/tla/*.jar"))
    return ":".join(dict.fromkeys(cp))


def tlc(module, cfg, env=None, workers=NCPU, heap="12g", timeout=800, extra=(), metadir=None, simulate=None):
    """run TLC on specs/<module>.tla; returns (returncode, stdout)"""
    e = dict(os.environ)
    e.update(env or {})
    md = metadir or tempfile.mkdtemp(prefix="tlc", dir=os.path.join(WORK))
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", tlc_classpath(), "tlc2.TLC", "-workers", str(workers),
           "-metadir", md, "-noGenerateSpecTE", "-config", os.path.join(SPECS, cfg)] + list(extra)
    if simulate:
        cmd += simulate
    cmd.append(os.path.join(SPECS, module + ".tla"))
    try:
        r = subprocess.run(cmd, env=e, cwd=SPECS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as ex:
        rc, out = -9, (ex.stdout or b"").decode("utf8", "replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return rc, out


def tlc_stats(out):
    import re
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


class Report:
    """verdict of one check: violations, known findings, evidence"""

    def __init__(self, prop, level, assumptions=()):
        self.prop, self.level = prop, level
        self.violations = []
        self.cov = {}
        self.assumptions = list(assumptions)

    def replay_dir(self, name):
        d = os.path.join(VERIF, "replays", self.prop, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    def violation(self, name, what, files):
        """files: {filename: text or bytes}"""
        d = self.replay_dir(name)
        for f, t in files.items():
            with open(os.path.join(d, f), "wb") as h:
                h.write(t if isinstance(t, bytes) else t.encode())
        with open(os.path.join(d, "README"), "w") as h:
            h.write(what + "\n")
        self.violations.append(what)
        print("VIOLATION property=%s replay=%s" % (self.prop, d), flush=True)
        print("  " + what.replace("\n", "\n  ")[:1500], flush=True)

    def known(self):
        """known findings of this property that are still open"""
        path = os.path.join(VERIF, "known_findings.jsonl")
        if not os.path.exists(path):
            return []
        out = []
        for l in open(path):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k["property"] == self.prop:
                    out.append(k)
        return out

    def known_line(self, what):
        print("KNOWN-FINDING: property=%s %s" % (self.prop, what), flush=True)

    def finish(self, **cov):
        self.cov.update(cov)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 1), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        log("done:", len(self.violations), "violations")
        sys.exit(1 if self.violations else 0)
