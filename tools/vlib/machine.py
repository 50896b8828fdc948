"""Machine-code checks: the assembly text cmmc prints for a target is executed by harness/asmsim
and every observation is judged against the behaviour of the SysY machine."""
import random
from . import extend, gen, tables
from .common import *
from .progcheck import run
from .sysyrun import Runner


def check(prop, target, n, per, offset, without=(), pars=("split",), extra=()):
    rep = Report(prop, "model_checking", ["programs without undefined behaviour (decided by the specification)",
                                          "harness/asmsim implements the instructions, calling convention and memory of the target"])
    if THOROUGH:
        n, per = n * 40, per * 20
    base = SEED * 1000003 + offset
    progs = []
    for i in range(n):
        p = gen.program(base + i, ext=0.3 if i % 2 else 0)
        p["id"] = "P%d" % i
        if i % 4 == 1:
            extend.extend(p, random.Random(base + i))
        progs.append(p)
    progs += gen.idiom_programs(base, per, without=without)
    progs += tables.programs(ranges_share=4)
    sim = harness("asmsim")
    bld = build()

    runner = Runner(os.path.join(bld, "bin", "cmmc"), None)
    runner.asmsim = sim
    runner.site6 = any(k["id"] == "KF6" for k in rep.known())
    lv = [lambda r, p, d, l=l: r.asm(p, d, target, l) for l in "0123"]
    # -O3 costs ten times as much as the other levels together: a share of the programs runs there
    some = {p["id"]: ((0, 1, 2) if i % 4 == 0 else (0, 1)) if p["id"][0] == "T" and p["id"][1:].isdigit() else ((1, 2 + i % 2) if i % 3 else (0, 2)) if str(p["id"])[1:].isdigit() else
            ((1, 2), (0, 3), (2,), (1,), (2, 3), (1, 2))[int(p["id"].split("_")[-1]) % 6] for i, p in enumerate(progs)}
    if THOROUGH:
        some = {}
        lv += [lambda r, p, d, l=l, q=q: r.asm(p, d, target, l, q) for l in "3" for q in ("rev", "one", "unit")]
    done = run(rep, progs, lambda p: [lv[i] for i in some[p["id"]]] if p["id"] in some else lv, prop.lower(), budget=7200 if THOROUGH else 240, runner=runner)
    rep.finish(machine_instruction_sites_known=sum(1 for p in done for o in p["obs"] if o.get("known")),
               runs_with_parallel_regions=sum(1 for p in done for o in p["obs"] if o.get("par")))
