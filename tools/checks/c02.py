"""C02: programs mean what the language says (unoptimised code, IR interpreter)"""
import random
from vlib import extend, gen, prectable, style, tables
from vlib.common import *
from vlib.progcheck import run


def main():
    rep = Report("C02", "model_checking", ["programs without undefined behaviour (decided by the specification)"])
    n, per = (40000, 100) if THOROUGH else (2400, 8)
    base = SEED * 2000003
    progs = []
    for i in range(n):
        p = gen.program(base + i, ext=1.0 if i % 3 else 0)
        p["id"] = "P%d" % i
        if i % 3 == 1:
            extend.extend(p, random.Random(base + i))
        progs.append(p)
    progs += gen.idiom_programs(base, per) + tables.programs()
    for i, p in enumerate(progs):
        if i % 4:
            p["source"] = style.to_source(p, base + i)
    for k in range(8 if THOROUGH else 1):       # printed with the fewest parentheses: not re-spelled
        progs += prectable.programs("sysy", "K%d_" % k, base + k)
    build()
    run(rep, progs, lambda p: [lambda r, p, d: r.sim(p, d, "0")], "c02", budget=3600 if THOROUGH else 150)
    rep.finish()
