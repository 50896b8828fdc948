"""C01: optimisation preserves the behaviour of programs (IR interpreter, -O0..-O3)"""
import random
from vlib import extend, gen, tables
from vlib.common import *
from vlib.progcheck import run


def main():
    rep = Report("C01", "model_checking", ["programs without undefined behaviour (decided by the specification)",
                                            "the IR interpreter executes IR faithfully (cross-checked by the machine code checks)"])
    n, per = (15000, 400) if THOROUGH else (300, 32)
    base = SEED * 1000003
    progs = []
    for i in range(n):
        p = gen.program(base + i, ext=0.3 if i % 2 else 0)
        p["id"] = "P%d" % i
        if i % 4 == 1:
            extend.extend(p, random.Random(base + i))
        progs.append(p)
    progs += gen.idiom_programs(base, per)
    progs += tables.programs()
    build()
    lv = [lambda r, p, d, l=l: r.sim(p, d, l) for l in "0123"]

    def configs(p):
        # -O3 costs ten times as much as the other levels together: a share of the programs runs there
        kind, i = str(p["id"])[0] if str(p["id"])[1:].isdigit() else "", int(str(p["id"]).split("_")[-1].strip("PKFT"))
        if THOROUGH or kind == "K":
            return lv
        if kind == "T":
            return lv[:3]
        if kind == "P":
            return lv[1:] if i % 3 else [lv[0], lv[1], lv[2]]
        return lv[1:] if i % 6 == 0 else [lv[0], lv[2]] if i % 6 == 1 else [lv[1], lv[2]]
    run(rep, progs, configs, "c01", budget=7200 if THOROUGH else 200)
    rep.finish()
