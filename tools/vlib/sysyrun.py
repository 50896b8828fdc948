"""Run generated SysY programs through cmmc in several configurations and let the SysY
machine (specs/SysYMachine.tla, run by TLC) judge every observation."""
import json, os, re, subprocess, time, shutil, concurrent.futures as cf
from . import ast
from .common import *

TIMEOUT = int(os.environ.get("VERIF_RUN_TIMEOUT", "12"))


class Runner:
    """one configuration of the implementation: how to get from source + input to an observation"""

    suffix = ".sy"

    def __init__(self, cmmc, workdir):
        self.cmmc, self.dir = cmmc, workdir
        self.asmsim = None
        self.timeout = TIMEOUT
        self.site6 = False       # finding KF6 is open
        self.keep = False        # keep generated code in the observation

    def files(self, p):
        d = os.path.join(self.dir, "p%s" % p["id"])
        with open(d + self.suffix, "w") as f:
            f.write(p.get("source") or ast.to_source(p))
        with open(d + ".in", "w") as f:
            f.write(" ".join(map(str, p["input"])) + "\n")
        return d

    def sim(self, p, d, level, extra=()):
        """compile for the IR interpreter at -O<level> and run"""
        cfg = "sim-O%s" % level + ("" if not extra else " " + " ".join(extra))
        out = "%s.out.%s" % (d, re.sub(r"\W", "_", cfg))
        if os.path.exists(out):
            os.unlink(out)
        cmd = [self.cmmc, "-t", "sim", "-O%s" % level, "--hide-symbol"] + list(extra) + ["-e", d + ".in", "-o", out, d + self.suffix]
        t = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=self.timeout)
        except subprocess.TimeoutExpired:
            # progcheck runs it again with a longer limit before anything is reported
            return dict(cfg=cfg, out=[], exit=-9, full=0, note="does not terminate (%d s)" % self.timeout, cmd=cmd)
        data = b""
        if os.path.exists(out):
            data = open(out, "rb").read(1 << 20)
            os.unlink(out)
        o = dict(cfg=cfg, out=list(data), exit=r.returncode, full=0, cmd=cmd)
        if r.returncode < 0:
            o["note"] = "crash: " + r.stderr.decode("utf8", "replace")[-400:]
            o["exit"] = -abs(r.returncode)
        return o


    def asm(self, p, d, target, level, par="split", extra=()):
        """compile for a machine, assemble where an assembler exists, and execute the text with
        harness/asmsim; a defect recorded for this target is executed as if repaired only after the
        faithful execution disagreed (the observation then carries "known")"""
        cfg = "%s-O%s" % (target, level) + ("" if par == "split" else "-" + par)
        s = "%s.%s.s" % (d, re.sub(r"\W", "_", cfg))
        cmd = [self.cmmc, "-t", target, "-O%s" % level] + list(extra) + ["-o", s, d + self.suffix]
        bad = dict(cfg=cfg, out=[], exit=-1, full=0, cmd=cmd)
        try:
            r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=self.timeout * 4)
        except subprocess.TimeoutExpired:
            return dict(bad, exit=-9, note="compilation does not terminate")
        if r.returncode:
            return dict(bad, note="compilation fails (%d): %s" % (r.returncode, r.stderr.decode("utf8", "replace")[-300:]))
        out = s + ".out"
        if target == "mips" and self.site6 and level != "0" and p["id"] not in ("KF6",) and "float" in open(d + self.suffix).read():
            # recorded finding KF6: an unordered relational comparison in the optimised IR is translated to the wrong condition
            ir = s + ".ir"
            subprocess.run([self.cmmc, "-t", target, "-O%s" % level, "--emitIR", "-o", ir, d + self.suffix], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            hit = os.path.exists(ir) and re.search(r"fcmp u[lg][te] ", open(ir).read())
            for f in (s, ir) if hit else (ir,):
                if os.path.exists(f):
                    os.unlink(f)
            if hit:
                return dict(bad, inconclusive="why=site of recorded finding KF6")

        def execute(*opts):
            c = [self.asmsim, "-isa", target, "-par", par, "-i", d + ".in", "-o", out] + list(opts) + [s]
            try:
                r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=self.timeout * 4, text=True)
            except subprocess.TimeoutExpired:
                return dict(bad, exit=-9, known=1 if "-known" not in opts else 0, note="does not terminate")
            k = r.stdout.split()
            data = list(open(out, "rb").read(1 << 20)) if os.path.exists(out) else []
            if not k or k[0] == "unsupported":
                return dict(bad, inconclusive=r.stdout.strip()[:300])
            kv = dict(x.split("=", 1) for x in k[2:5])
            o = dict(cfg=cfg, out=data, exit=int(k[1]), full=0, cmd=cmd, par=int(kv["par"]), known=int(kv["known"]))
            if k[0] == "fault":
                o.update(exit=-121, out=data[:1000], note=r.stdout.strip()[:300])
            return o
        o = [execute()]
        if o[0].get("known"):
            q = execute("-known")
            if q["out"] != o[0]["out"] or q["exit"] != o[0]["exit"]:
                o.append(dict(q, cfg=cfg + " (site repaired)", aux=cfg))
        if self.keep:
            o[0]["asm"] = open(s).read()
        for f in (s, out):
            if os.path.exists(f):
                os.unlink(f)
        return o


def judge(progs, work, tag="batch", timeout=780, heap="12g"):
    """TLC runs the specification on every program and compares the observations.
    returns {id: (status, ret, steps, [violating observation indices], expected output or None)}"""
    path = os.path.join(work, tag + ".ndjson")
    with open(path, "w") as f:
        for p in progs:
            q = {k: p[k] for k in ("id", "globals", "funcs", "input", "maxSteps")}
            q["obs"] = [{k: o[k] for k in ("cfg", "out", "exit", "full")} for o in p["obs"]]
            f.write(json.dumps(q) + "\n")
    rc, out = tlc("SysYMachine", "SysYMachine.cfg", {"SYSY_PROGS": path}, timeout=timeout, heap=heap)
    with open(os.path.join(work, tag + ".tlc"), "w") as f:
        f.write(out)
    res = {}
    for m in re.finditer(r'<<"RES", (\S+?), "(\w+)", (.+?), (\d+), \{([\d, ]*)\}>>', out):
        pid = m.group(1)
        ids = [int(x) - 1 for x in m.group(5).split(",") if x.strip()]
        res[pid.strip('"')] = [m.group(2), m.group(3), int(m.group(4)), ids, None]
    for m in re.finditer(r'<<\s*"EXP",\s*(\S+?),\s*(-?\d+),\s*<<([\d,\s]*)>>\s*>>', out):
        k = m.group(1).strip('"')
        if k in res:
            res[k][4] = bytes(int(x) for x in m.group(3).split(",") if x.strip())
    if rc != 0 or len(res) != len(progs):
        die("TLC did not judge every program (rc %s, %d of %d); see %s" % (rc, len(res), len(progs), os.path.join(work, tag + ".tlc")))
    return res, tlc_stats(out)


def parallel(fn, items, workers=NCPU):
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))
