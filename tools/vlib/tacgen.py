"""Random three-address programs: arbitrary (also irreducible) control flow, objects reached through
addresses that merge, travel through memory and across calls, recursion.  Every value read has been
written and every backward jump burns fuel, so most programs are defined; specs/TAC.tla decides."""
import random

REL = ("<", "<=", ">", ">=", "==", "!=")
SMALL = (0, 1, -1, 2, 3, 4, 5, 7, 8, -2, -3, -7, 10, 12, 16, 31, 32, 100, 127, 255, 256)
BIG = (1000, 4096, 32767, 32768, -32768, -32769, 65535, 65536, 1000000, 0x7fff0000, 2147483647, -2147483648, -2147483647)


class Fn:
    def __init__(s, name, kinds, ret):
        s.name, s.kinds, s.ret = name, kinds, ret     # kinds: "i" or the words a pointer parameter can reach
        s.recursive = False


class TGen:
    def __init__(s, seed, addresses=True):
        s.r = random.Random(seed)
        s.addr = addresses
        s.labels = 0
        s.fns = []
        s.out = []

    def c(s, big=0.06):
        return s.r.choice(BIG if s.r.random() < big else SMALL)

    def emit(s, *a):
        s.out.append(" ".join(a))

    def label(s):
        s.labels += 1
        return "label%d" % s.labels

    def fresh(s):
        s.nv += 1
        return "v%d" % s.nv

    def lit(s):
        return "#%d" % s.c()

    def ival(s):
        return s.r.choice(s.ints) if s.r.random() < 0.75 else s.lit()

    # ---------------------------------------------------------------- addresses
    def element(s):
        """a variable holding the address of one word that exists"""
        q = s.fresh()
        p = s.r.random()
        if s.ptrs and (p < 0.4 or not s.objs):
            v, n = s.r.choice(s.ptrs)
            base, n = v, n
        elif s.objs:
            o, n = s.r.choice(s.objs)
            base = "&" + o
        else:
            return None
        if s.r.random() < 0.55 or n == 1:
            k = s.r.randrange(n)
            s.emit(q, ":=", base, "+", "#%d" % (4 * k)) if k or s.r.random() < 0.5 else s.emit(q, ":=", base)
            return q
        # a computed index, brought into range
        i, l1, l2, w = s.fresh(), s.label(), s.label(), s.fresh()
        x = s.r.choice(s.ints)
        t = s.fresh()
        s.emit(t, ":=", x, "/", "#%d" % n)
        s.emit(t, ":=", t, "*", "#%d" % n)
        s.emit(i, ":=", x, "-", t)
        s.emit("IF", i, ">=", "#0", "GOTO", l1)
        s.emit(i, ":=", i, "+", "#%d" % n) if s.r.random() < 0.6 else s.emit(i, ":=", "#%d" % s.r.randrange(n))
        s.emit("LABEL", l1, ":")
        s.emit(w, ":=", i, "*", "#4") if s.r.random() < 0.7 else s.emit(w, ":=", "#4", "*", i)
        if s.r.random() < 0.7:
            s.emit(q, ":=", base, "+", w)
        else:
            s.emit(q, ":=", w, "+", base)
        return q

    # ---------------------------------------------------------------- statements
    def op(s, depth=0):
        p = s.r.random()
        d = s.r.choice(s.ints)
        if p < 0.16:
            s.emit(d, ":=", s.ival())
        elif p < 0.42:
            o = s.r.choice("++--*")
            s.emit(d, ":=", s.ival(), o, s.ival())
        elif p < 0.50:
            k = s.c()
            while k == 0:
                k = s.c()
            s.emit(d, ":=", s.ival(), "/", "#%d" % k)
        elif p < 0.53:      # a divisor that is not zero: y*y + 1
            t = s.fresh()
            y = s.r.choice(s.ints)
            s.emit(t, ":=", y, "/", "#%d" % s.r.choice((100, 1000, 50)))
            s.emit(t, ":=", t, "*", t)
            s.emit(t, ":=", t, "+", "#1")
            s.emit(d, ":=", s.ival(), "/", t)
        elif p < 0.58:      # reduction keeps values small
            k = s.r.choice((7, 10, 13, 64, 100, 1000))
            t = s.fresh()
            s.emit(t, ":=", d, "/", "#%d" % k)
            s.emit(t, ":=", t, "*", "#%d" % k)
            s.emit(d, ":=", d, "-", t)
        elif p < 0.80 and (s.objs or s.ptrs):
            q = s.element()
            if s.r.random() < 0.5:
                s.emit("*" + q, ":=", s.ival())
                if s.r.random() < 0.4:
                    e = s.element()
                    s.emit(d, ":=", "*" + e)
            else:
                s.emit(d, ":=", "*" + q)
        elif p < 0.84 and s.objs:   # an object by its name: the first word
            o, n = s.r.choice(s.objs)
            if s.r.random() < 0.5:
                s.emit(o, ":=", s.ival())
            else:
                s.emit(d, ":=", o)
        elif p < 0.88 and s.pvars:  # an address variable now points elsewhere
            v, n = s.r.choice(s.pvars)
            fit = [(b, m) for b, m in s.objs if m >= n]
            if fit:
                b, m = s.r.choice(fit)
                k = s.r.randrange(m - n + 1)
                s.emit(v, ":=", "&" + b, "+", "#%d" % (4 * k)) if k else s.emit(v, ":=", "&" + b)
        elif p < 0.91 and s.cells:  # an address travels through memory
            c, n = s.r.choice(s.cells)
            if s.r.random() < 0.4:
                fit = [(b, m) for b, m in s.objs if m >= n]
                if fit:
                    s.emit("*" + s.cellref(c), ":=", "&" + s.r.choice(fit)[0])
            else:
                q = s.fresh()
                s.emit(q, ":=", "*" + s.cellref(c))
                k = s.r.randrange(n)
                if k:
                    s.emit(q, ":=", q, "+", "#%d" % (4 * k))
                if s.r.random() < 0.5:
                    s.emit("*" + q, ":=", s.ival())
                else:
                    s.emit(d, ":=", "*" + q)
        elif p < 0.96:
            s.call(d)
        else:
            s.emit("WRITE", s.ival())

    def cellref(s, c):
        t = s.fresh()
        s.emit(t, ":=", "&" + c)
        return t

    def call(s, d):
        able = [f for f in s.fns if f is not s.cur and s.budget > 0]
        if not able:
            s.emit("WRITE", s.ival())
            return
        s.budget -= 1
        s.invoke(d, s.r.choice(able), None)

    def invoke(s, d, f, first):
        vals = []
        for k, kind in enumerate(f.kinds):
            if k == 0 and first is not None:
                vals.append(first)
            elif kind == "i":
                vals.append(s.ival())
            else:
                v = s.pointer(kind)
                if v is None:
                    s.emit("WRITE", s.ival())
                    return
                vals.append(v)
        for v in reversed(vals):
            s.emit("ARG", v)
        s.emit(d, ":=", "CALL", f.name)

    def pointer(s, n):
        fit = [v for v, m in s.ptrs if m >= n] + ["&" + o for o, m in s.objs if m >= n] * 2
        return s.r.choice(fit) if fit else None

    # ---------------------------------------------------------------- functions
    def function(s, f, blocks):
        s.cur = f
        s.nv = 0
        s.budget = 2 if f.name == "main" else 1
        s.emit("FUNCTION", f.name, ":")
        s.ints, s.ptrs, s.objs, s.pvars, s.cells = [], [], [], [], []
        params = []
        for k in f.kinds:
            v = s.fresh()
            params.append(v)
            s.emit("PARAM", v)
            if k == "i":
                s.ints.append(v)
            else:
                s.ptrs.append((v, k))
        if f.recursive:
            l = s.label()
            s.emit("IF", params[0], ">", "#0", "GOTO", l)
            s.emit("RETURN", s.ival())
            s.emit("LABEL", l, ":")
        for _ in range(s.r.randint(2, 5)):
            v = s.fresh()
            p = s.r.random()
            if f.name == "main" and p < 0.35:
                s.emit("READ", v)
            else:
                s.emit(v, ":=", s.lit() if not s.ints or s.r.random() < 0.5 else s.r.choice(s.ints))
            s.ints.append(v)
        if s.addr:
            for _ in range(s.r.randint(1, 3) if f.name == "main" else s.r.choice((0, 0, 1, 2))):
                s.object(s.r.choice((1, 2, 2, 3, 4, 5, 8)))
            for _ in range(s.r.randint(0, 2)):
                if not s.objs:
                    break
                o, n = s.r.choice(s.objs)
                v = s.fresh()
                s.emit(v, ":=", "&" + o)
                s.pvars.append((v, n))
                s.ptrs.append((v, n))
            if s.objs and s.r.random() < 0.4:
                c = s.fresh()
                o, n = s.r.choice(s.objs)
                s.emit("DEC", c, "4")
                t = s.cellref(c)
                s.emit("*" + t, ":=", "&" + o)
                s.cells.append((c, n))
        fuel = s.fresh()
        s.emit(fuel, ":=", "#%d" % s.r.choice((2, 3, 5, 8, 12) if f.name != "main" else (3, 6, 10, 20)))
        nb = blocks
        labels = [s.label() for _ in range(nb)] + [s.label()]
        rec = s.r.randrange(nb) if f.recursive else -1
        first = len(s.out)
        for b in range(nb):
            s.emit("LABEL", labels[b], ":")
            for _ in range(s.r.randint(1, 4)):
                s.op()
            if b == rec:
                t = s.fresh()
                s.emit(t, ":=", params[0], "-", "#%d" % s.r.randint(1, 2))
                s.invoke(s.r.choice(s.ints), f, t)
            p = s.r.random()
            if p < 0.68:
                s.branch(b, labels, fuel)
            elif p < 0.80 and b + 2 <= nb:
                s.emit("GOTO", labels[s.r.randint(b + 1, nb)])
            elif p < 0.83:
                s.emit("RETURN", s.ival())
        s.emit("LABEL", labels[nb], ":")
        for v in s.ints[:3] if f.name == "main" else s.ints[:1]:
            s.emit("WRITE", v)
        if f.name == "main":
            for o, n in s.objs:
                for k in range(n):
                    q, t = s.fresh(), s.fresh()
                    s.emit(q, ":=", "&" + o, "+", "#%d" % (4 * k))
                    s.emit(t, ":=", "*" + q)
                    s.emit("WRITE", t)
        if f.ret != "i":
            q = s.pointer(f.ret)
            if q is None:
                f.ret = "i"
        s.emit("RETURN", s.ival() if f.ret == "i" else q)

    def object(s, n):
        o = s.fresh()
        s.emit("DEC", o, "%d" % (4 * n))
        for k in range(n):
            if k == 0 and s.r.random() < 0.3:
                s.emit(o, ":=", s.lit())
                continue
            t = s.fresh()
            s.emit(t, ":=", "&" + o, "+", "#%d" % (4 * k))
            s.emit("*" + t, ":=", s.ival())
        s.objs.append((o, n))

    def branch(s, b, labels, fuel):
        nb = len(labels) - 1
        t = s.r.randint(0, nb)
        x, y = s.r.choice(s.ints), s.ival()
        if t <= b:
            s.emit(fuel, ":=", fuel, "-", "#1")
            s.emit("IF", fuel, s.r.choice(("<=", "<")), "#0", "GOTO", labels[nb])
            if s.r.random() < 0.3:
                s.emit("GOTO", labels[t])
                return
        s.emit("IF", x, s.r.choice(REL), y, "GOTO", labels[t])
        if s.r.random() < 0.25 and b + 1 < nb:
            s.emit("GOTO", labels[s.r.randint(b + 1, nb)])

    def program(s):
        for k in range(s.r.choice((0, 1, 1, 2, 3))):
            kinds = [s.r.choice((2, 1, 3) if s.addr and s.r.random() < 0.45 else "i") for _ in range(s.r.randint(0, 4))]
            f = Fn("f%d" % k, kinds, "i")
            if s.r.random() < 0.35:
                f.recursive = True
                f.kinds = ["i"] + kinds[:3]
            s.function(f, s.r.randint(1, 5))
            s.fns.append(f)
        main = Fn("main", [], "i")
        s.function(main, s.r.randint(3, 9))
        return dict(source="\n".join(s.out) + "\n", input=[s.c(0.03) for _ in range(8)], maxSteps=3000, addresses=s.addr)


def program(seed, addresses=True):
    return TGen(seed, addresses).program()
