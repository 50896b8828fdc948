"""C06: SPL programs mean what the language says, on every route a user has: interpreted IR, printed
three-address code (executed by specs/TAC.tla) and MIPS assembly with the printed runtime (harness/asmsim)"""
from vlib import prectable, spl
from vlib.common import *
from vlib.progcheck import run
from vlib.tacrun import TacRunner


def main():
    rep = Report("C06", "model_checking", ["programs without undefined behaviour (decided by the specification)",
                                            "harness/asmsim implements MIPS and the SPIM system calls"])
    n = 6000 if THOROUGH else 320
    base = SEED * 1000003 + 5100000
    progs = []
    for i in range(n):
        p = spl.program(base + i, ext=i % 2 == 1)
        p["id"] = "P%d" % i
        progs.append(p)
    for k in range(8 if THOROUGH else 1):
        progs += prectable.programs("spl", "K%d_" % k, base + k)
    runner = TacRunner(os.path.join(build(), "bin", "cmmc"), scratch("c06t"))
    runner.asmsim = harness("asmsim")
    num = {p["id"]: i for i, p in enumerate(progs)}

    def o3(p):
        # -O3 can take half a minute on a long program
        return num.get(p["id"], 1) % 4 == 0 and len(p["source"]) < 1600

    def levels(p):
        i = num.get(p["id"], 0)
        if not p.get("tacable", True):
            return ""           # three-address code has no form for some of its operators, or for globals
        return "0123" if THOROUGH else "0" + ("3" if o3(p) else "12"[i % 2])
    states = runner.collect(progs, levels)

    def configs(p):
        i = num.get(p["id"], 0)
        c = [lambda r, p, d, l=l: r.tac_run(p, d, l) for l in levels(p)]
        c += [lambda r, p, d, l=l: r.sim(p, d, l) for l in ("0123" if THOROUGH else "03" if o3(p) else "0" + "12"[i % 2])]
        c += [lambda r, p, d, l=l: r.asm(p, d, "mips", l) for l in ("0123" if THOROUGH or p["id"] not in num else "3" if o3(p) else "012"[i % 3])]
        return c
    run(rep, progs, configs, "c06", budget=7200 if THOROUGH else 240, runner=runner)
    rep.finish(three_address_states=states)
