"""Compilation to three-address code and its execution by specs/TAC.tla, batched for TLC."""
import itertools, threading
from . import spl
from .common import *
from .sysyrun import Runner, parallel


class TacRunner(Runner):
    """three-address code is collected first and executed by TLC in batches"""
    lock = threading.Lock()
    count = itertools.count()
    suffix = ".spl"

    def tac(self, p, d, level):
        """compile to three-address code: an item for specs/TAC.tla, or the observation of a failure"""
        cfg = "tac-O%s" % level
        t = "%s.O%s.%d.tac" % (d, level, next(self.count))
        cmd = [self.cmmc, "-t", "tac", "-O%s" % level, "-o", t, d + self.suffix]
        bad = dict(cfg=cfg, out=[], exit=-1, full=0, cmd=cmd)
        try:
            r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=self.timeout * 2)
        except subprocess.TimeoutExpired:
            return dict(bad, exit=-9, note="compilation does not terminate")
        if r.returncode:
            err = r.stderr.decode("utf8", "replace")
            if level != "0" and "Failed to select" in err:
                return dict(bad, inconclusive="why=an operation the optimiser introduced has no three-address form")
            return dict(bad, note="compilation fails (%d): %s" % (r.returncode, err[-300:]))
        text = open(t).read()
        os.unlink(t)
        try:
            q = spl.tac_program(text)
        except (ValueError, IndexError) as e:
            return dict(bad, exit=-2, note="not three-address code: %s" % e)
        q.update(id="%s.%s" % (p["id"], level), input=p["input"], maxSteps=p["maxSteps"] * 40, obs=[], text=text, bad=bad)
        return q

    def execute(self, items, tag):
        res, st = spl.run_tac(items, self.dir, tag)
        out = {}
        for q in items:
            status, ret, steps, _, text = res[q["id"]]
            o = dict(q["bad"], out=list(text), asm=q["text"])
            if status == "halt":
                o["exit"] = int(ret) % 256
            elif status == "long":
                o["inconclusive"] = "why=step limit of the three-address machine"
            else:
                o.update(exit=-3, note="three-address code faults: " + ret)
            out[q["id"]] = o
        return out, st

    def tac_run(self, p, d, level):
        pre = p.get("tac", {}).pop(level, None)
        if pre is not None:
            return pre
        q = self.tac(p, d, level)
        if "code" not in q:
            return q
        with self.lock:
            return self.execute([q], "again")[0][q["id"]]

    def collect(self, progs, levels):
        """run every program's three-address code at levels(p) in few TLC runs; tac_run hands the observations out; returns states"""
        items, states = [], 0

        def first(p):
            d = self.files(p)
            p["tac"] = {}
            for l in levels(p):
                q = self.tac(p, d, l)
                if "code" in q:
                    items.append(q)
                else:
                    p["tac"][l] = q
        parallel(first, progs)
        log("%d three-address programs" % len(items))
        byid = {p["id"]: p for p in progs}
        for k in range(0, len(items), 3000):
            out, st = self.execute(items[k:k + 3000], "t%d" % k)
            states += st[1]
            for k, o in out.items():
                i, l = k.split(".")
                byid[i]["tac"][l] = o
        log("three-address machine: %d states" % states)
        return states
