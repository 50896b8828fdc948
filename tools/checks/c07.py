"""C07: three-address code keeps its meaning: programs in that language are loaded, optimised and printed
as three-address code (executed by specs/TAC.tla) or MIPS assembly (harness/asmsim)"""
from vlib import spl, tacgen, tacidioms
from vlib.common import *
from vlib.progcheck import run
from vlib.sysyrun import parallel
from vlib.tacrun import TacRunner


def judge(progs, work, tag):
    """the strict machine (overflow is undefined) runs the source and compares the observations"""
    items = [dict(spl.tac_program(p["source"]), id=str(p["id"]), input=p["input"], maxSteps=p["maxSteps"], strict=1, obs=p["obs"]) for p in progs]
    res, st = spl.run_tac(items, work, tag)
    return {k: ["halt" if v[0] == "halt" else "undef", v[1], v[2], v[3], v[4]] for k, v in res.items()}, st


def main():
    rep = Report("C07", "model_checking", ["three-address programs without undefined behaviour (decided by the specification; overflow is undefined)",
                                            "harness/asmsim implements MIPS and the SPIM system calls"])
    n, m = (6000, 1500) if THOROUGH else (300, 60)
    base = SEED * 1000003 + 5900000
    progs = []
    for i in range(n):
        p = tacgen.program(base + i, addresses=i % 5 != 4)
        p["id"] = "P%d" % i
        progs.append(p)
    progs += tacidioms.programs(base, 200 if THOROUGH else 30)
    runner = TacRunner(os.path.join(build(), "bin", "cmmc"), scratch("c07t"))
    runner.suffix = ".ir"
    runner.asmsim = harness("asmsim")

    # the compiler's own output for SPL programs is a source as well
    def own(i):
        p = spl.program(base + 500000 + i)
        d = os.path.join(runner.dir, "own%d" % i)
        with open(d + ".spl", "w") as f:
            f.write(p["source"])
        try:
            r = subprocess.run([runner.cmmc, "-t", "tac", "-O%d" % (i % 3), "-o", d + ".ir", d + ".spl"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30)
            if r.returncode == 0:
                text = open(d + ".ir").read()
                spl.tac_program(text)
                progs.append(dict(id="S%d" % i, source=text, input=p["input"], maxSteps=15000, addresses=True))
        except (subprocess.TimeoutExpired, ValueError, IndexError):
            pass            # C06 judges these
    parallel(own, range(m))
    num = {p["id"]: i for i, p in enumerate(progs)}

    def levels(p):
        i = num.get(p["id"], 0)
        if p["id"][0] not in "PS" and not THOROUGH:
            return "13" if i % 3 else "02"
        return "0123" if THOROUGH else "0123"[i % 4] + "0123"[(i + 1 + i // 4 % 3) % 4]
    states = runner.collect(progs, levels)

    def configs(p):
        i = num.get(p["id"], 0)
        c = [lambda r, p, d, l=l: r.tac_run(p, d, l) for l in levels(p)]
        c += [lambda r, p, d, l=l: r.asm(p, d, "mips", l) for l in ("0123" if THOROUGH or p["id"] not in num else "0123"[i % 4] + "0123"[(i + 2) % 4])]
        return c
    run(rep, progs, configs, "c07", budget=7200 if THOROUGH else 240, runner=runner, judge=judge)
    rep.finish(three_address_states=states)
