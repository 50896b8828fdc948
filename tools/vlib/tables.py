"""Deterministic programs that enumerate operations against constants: every comparison (as a value and
as a branch, constant on either side), sum, difference, product, quotient and remainder with each
constant of a list of representation boundaries, and element accesses at each boundary of the
address offsets.  The arguments are read at run time, so the operation itself reaches the code."""
from . import parse

IMAX, IMIN = 2 ** 31 - 1, -2 ** 31
CMPS = ("<", "<=", ">", ">=", "==", "!=")


def constants():
    s = {0, 3, 5, 6, 7, 10, 11, 12, 13, 25, 60, 100, 641, 1000, 10007, 1000003, 998244353, 1000000007, 0x0f0f0f0f, 0x33333333, 0x55555555, 0x7f0000,
         0xff00, 0xff00ff, 0x12345678, 715827882, 715827883, 1431655765}
    for k in range(0, 31):
        s |= {2 ** k, 2 ** k + 1, 2 ** k - 1}
    s |= {-v for v in s} | {IMIN, IMAX, IMIN + 1, IMAX - 1}
    return sorted(v for v in s if IMIN <= v <= IMAX)


def lit(c):
    return "(-2147483647 - 1)" if c == IMIN else "(%d)" % c if c < 0 else str(c)


def program(consts, name, quick=True):
    decl, main, inp = [], [], []

    def row(call, xs):
        main.append("  n = getint(); while (n > 0) { putint(%s); putch(32); n = n - 1; } putch(10);" % call.replace("@", "getint()"))
        inp.append(len(xs))
        inp.extend(xs)
    ok = lambda v: IMIN <= v <= IMAX
    base = [0, 1, -1, 2, -2, 7, -9, 99, -100, 4095, -4097, 65535, -65536, 123456789, -987654321, IMAX, IMIN, IMAX - 1, IMIN + 1]
    for k, c in enumerate(consts):
        L = lit(c)
        xs = sorted({v for v in [c - 1, c, c + 1, -c, 0, 1, -1, IMIN, IMAX, 5, -77] if ok(v)})
        t, w = "", 1
        for q in CMPS:
            for e in ("x %s %s" % (q, L), "%s %s x" % (L, q)):
                t += " s = s + %d * (%s);" % (w, e)
                t += " if (%s) s = s + %d;" % (e, w * 4096)
                w *= 2
        decl.append("int cmp%d(int x) { int s = 0;%s return s; }" % (k, t))
        row("cmp%d(@)" % k, xs)
        zs = [v for v in base + [c - 1, c + 1] if ok(v) and ok(v + c) and ok(v - c) and ok(c - v)][:9]
        if zs:
            decl.append("int add%d(int x) { putint(x + %s); putch(44); putint(x - %s); putch(44); return %s - x; }" % (k, L, L, L))
            row("add%d(@)" % k, zs)
        ms = [v for v in base + [3, -3, 46341, -46340, 32767] if ok(v * c) and (v * c > IMIN or v == 1)][:12]
        decl.append("int mul%d(int x) { return x * %s; }" % (k, L))
        row("mul%d(@)" % k, ms)
        if c:
            ds = [v for v in base + [c, c - 1, c + 1, -c, 3 * c, 3 * c - 1, -3 * c + 1] if ok(v) and not (c == -1 and v == IMIN)]
            decl.append("int div%d(int x) { putint(x / %s); putch(44); return x %% %s; }" % (k, L, L))
            row("div%d(@)" % k, sorted(set(ds)))
        vs = [v for v in (1, -1, 2, -2, 3, 10, -7, IMAX, IMIN, c, c + 1, c - 1) if v and ok(v) and not (c == IMIN and v == -1)]
        decl.append("int inv%d(int x) { putint(%s / x); putch(44); return %s %% x; }" % (k, L, L))
        row("inv%d(@)" % k, sorted(set(vs)))
    src = "\n".join(decl) + "\nint main() { int n = 0;\n" + "\n".join(main) + "\n  return 0; }\n"
    p = parse.program(src, inp, name, 60000)
    return p


def offsets(name, kind, n, ks):
    """reads and writes at constant element offsets of a global / local / parameter array of n ints"""
    st = " ".join("a[%d] = a[%d] * 3 + x + %d;" % (k, k, i) for i, k in enumerate(ks))
    ld = " + ".join("a[%d] * %d" % (k, i + 1) for i, k in enumerate(ks))
    rel = " ".join("a[i + %d] = a[i + %d] + x; s = s %% 9999 + a[i + %d];" % (k - 1, ks[j - 1] - 1 if j else ks[j], k - 1) for j, k in enumerate(ks) if 0 < k and k - 1 + 1 < n)
    body = "int s = 0; int i = y; %s s = s + (%s) %% 9999; %s return s;" % (st, ld, rel)
    if kind == "global":
        src = "int b[3]; int a[%d]; int c[5];\nint f(int x, int y) { %s }" % (n, body)
        call = "f(x, y)"
    elif kind == "param":
        src = "int b[3]; int g[%d]; int c[5];\nint f(int a[], int x, int y) { %s }" % (n, body)
        call = "f(g, x, y)"
    elif kind == "row":
        src = "int b[3]; int g[2][%d]; int c[5];\nint f(int a[], int x, int y) { %s }" % (n, body)
        call = "f(g[1], x, y)"
    else:
        src = "int b[3]; int c[5];\nint f(int x, int y) { int a[%d] = {1, 2}; %s }" % (n, body)
        call = "f(x, y)"
    src += "\nint main() { int n = getint(); while (n > 0) { int x = getint(); int y = getint(); putint(%s); putch(10); n = n - 1; } return 0; }\n" % call
    return parse.program(src, [3, 2, 0, -5, 1, 9, 0], name, 60000)


def accesses(name, part, parts):
    """two accesses to neighbouring elements with something in between that may touch the same memory:
    every combination of base, access kinds, order and interposed action"""
    fs, calls = [], []
    i = 0
    for base in ("glob", "loc", "par"):
        a = {"glob": "ga", "loc": "la", "par": "p"}[base]
        for k, k2 in ((0, 1), (1, 0), (2, 3), (1, 2), (0, 0)):
            for first in ("%s[%d] = x;" % (a, k), "%s[%d] = 0;" % (a, k), "t = %s[%d];" % (a, k)):
                for second in ("%s[%d] = y;" % (a, k2), "%s[%d] = 0;" % (a, k2), "u = %s[%d];" % (a, k2), "%s[%d] = t;" % (a, k2)):
                    for mid in ("", "s = p[j];", "p[j] = 77;", "s = ga[j];", "ga[j] = s + 5;", "s = touch(j);", "s = %s[j] * 2;" % a, "%s[j] = x + y;" % a, "if (x > y) s = 3;", "x = x + 1; t = t - y;"):
                        i += 1
                        if i % parts != part:
                            continue
                        n = len(fs)
                        loc = "int la[4] = {11, 12, 13, 14};" if base == "loc" else ""
                        end = "%s" % ("s = s * 3 + la[0] + la[1] * 5 + la[2] * 7 + la[3] * 9;" if base == "loc" else "")
                        fs.append("int f%d(int p[], int x, int y, int j) { %s int s = 1; int t = 2; int u = 4; %s %s %s %s return s + t * 100 + u * 3; }" % (n, loc, first, mid, second, end))
                        calls.append("reset(); putint(f%d(%s, 21, 42, j)); putch(32); putarray(4, ga); putarray(4, gb);" % (n, "ga" if i % 3 else "gb")),
    src = ("int ga[4]; int gb[4];\nint touch(int j) { int v = ga[j]; ga[j] = v * 2 + 1; gb[3 - j] = v; return v; }\n"
           "void reset() { int i = 0; while (i < 4) { ga[i] = 31 + i; gb[i] = 51 + i; i = i + 1; } }\n" + "\n".join(fs) +
           "\nint main() { int n = getint(); while (n > 0) { int j = getint(); %s n = n - 1; } return 0; }\n" % "\n".join(calls))
    return parse.program(src, [3, 0, 1, 3] if part % 2 else [3, 1, 2, 0], name, 60000)


def ranges(name, part, parts):
    """an operation between two operands confined to small ranges (remainders, masks, selections, guards), and
    comparisons of its result with values near the ends of what it can be"""
    def tdiv(a, b):
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    A = [("x %% %d" % m, lambda x, m=m: x - tdiv(x, m) * m, "") for m in (5, 16)]
    A += [("x %% %d + %d" % (m, c), lambda x, m=m, c=c: x - tdiv(x, m) * m + c, "") for m, c in ((50, 60), (9, -20), (8, 7))]
    A += [("x & %d" % m, lambda x, m=m: x & m, "") for m in (15, 12)]
    A += [("(x & 7) - 4", lambda x: (x & 7) - 4, ""), ("x > 0 ? 40 : -24", lambda x: 40 if x > 0 else -24, "ext")]
    B = [("y %% %d" % m, lambda y, m=m: y - tdiv(y, m) * m) for m in (9, 4)]
    B += [("y % 7 + 10", lambda y: y - tdiv(y, 7) * 7 + 10), ("y & 7", lambda y: y & 7), ("(y & 3) - 2", lambda y: (y & 3) - 2), ("y %% 6 * 4".replace("%%", "%"), lambda y: (y - tdiv(y, 6) * 6) * 4)]
    ops = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": tdiv, "%": lambda a, b: a - tdiv(a, b) * b,
           "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, ">>": lambda a, b: a >> b, "<<": lambda a, b: a << b}
    xs = [v for v in range(-70, 71)]
    ys = [v for v in range(-12, 13)]
    decl, main = [], []
    k = 0
    for at, af, _ in A:
        if "?" in at:
            at = "x; if (x > 0) a = 40; else a = -24"
        for bt, bf in B:
            for op, of in ops.items():
                k += 1
                if k % parts != part:
                    continue
                ext = {}
                for x in xs:
                    a = af(x)
                    for y in ys:
                        b = bf(y)
                        if op in "/%" and b == 0 or op in ("<<", ">>") and not 0 <= b < 31 or op == "<<" and a < 0:
                            continue
                        ext.setdefault(of(a, b), []).append((x, y))
                if not ext:
                    continue
                vals = sorted(ext)
                ends = [vals[0], vals[1 % len(vals)], vals[len(vals) // 2], vals[-2 % len(vals)], vals[-1]]
                th = sorted({ends[0], ends[-1], ends[0] + 1, ends[-1] - 1, ends[2], 0})
                n = len(decl)
                t = ""
                w = 1
                for c in th:
                    for q in ("<", ">", "=="):
                        t += " if (r %s %d) s = s + %d;" % (q, c, w)
                        w *= 2
                decl.append("int f%d(int x, int y) { int a = %s; int b = %s; int r = a %s b; int s = 0;%s putint(r / 4); putch(44); putint(r %% 8); putch(44); return s; }" % (n, at, bt, op, t))
                pts = sorted({ext[v][i] for v in set(ends) for i in (0, -1)})
                main += ["f%d(%d + z, %d + z)" % (n, x, y) for x, y in pts[:7]]
    src = "\n".join(decl) + "\nint main() { int z = getint();\n" + "\n".join(" putint(%s); putch(32);" % m for m in main) + " return 0; }\n"
    return parse.program(src, [0], name, 60000)


def skeletons(name, seed, n, ext=False):
    """control flow trees with break, continue, return and code after them in every position; loops consume fuel, except
    those behind a condition that never holds, which may run forever"""
    import random
    r = random.Random(seed)
    conds = ["x % 3 == 1", "x > 5", "a[(x & 3) + 3]" if ext else "a[x % 4 + 3]", "x % 2", "a[0] < x", "!x", "x % 2 && a[1]", "x < 3 || a[2] > 9", "x != 7"]

    def leaf(loop):
        k = r.random()
        if k < 0.25:
            return "putint(x); putch(%d);" % r.randint(97, 122)
        if k < 0.4:
            return r.choice(["x = x + 1;", "x = x * 3 % 11;", "x = a[1] + x / 2;", "a[1] = x;", "a[x % 4 + 3] = a[0] + 1;", "x = 0;"])
        if k < 0.5:
            return r.choice(["a[x % 4 + 3] = x || a[1];", "x = x > 2 && a[x % 4 + 3] < 9;", "a[2] = (x || 5) + !a[1];" if ext else "a[2] = x > 3 || a[3];", "{ int y = x || a[0]; x = y; }", "a[x % 4 + 3] = g(x, x && a[2]);"])
        if k < 0.68 and loop:
            return "break;"
        if k < 0.84 and loop:
            return "continue;"
        if k < 0.9:
            return "return x%s;" % r.choice(["", " + 1", " || a[0]", " * 2"])
        return r.choice([";", "{}", "x = g(x, 1);", "t = t - 1;"])

    def seq(d, loop, inf):
        return " ".join(stmt(d, loop, inf) for _ in range(r.choice([1, 1, 2, 2, 3])))

    def stmt(d, loop, inf):
        k = r.random()
        if d == 0 or k < 0.25:
            return leaf(loop)
        if k < 0.4:
            return "if (%s) { %s }" % (r.choice(conds), seq(d - 1, loop, inf))
        if k < 0.58:
            return "if (%s) { %s } else { %s }" % (r.choice(conds), seq(d - 1, loop, inf), seq(d - 1, loop, inf))
        if k < 0.63:
            return "if (z == 77) { %s }" % seq(d - 1, loop, True)
        if inf and r.random() < 0.6:
            return "while (%s) { %s }" % (r.choice(["1", "x", "z", "x > 0", "1 || x"]), r.choice(["", seq(d - 1, True, True), seq(d - 1, True, True)]))
        fuel = r.choice(["next() && (%s)", "(%s) && next()", "t > 0 && (%s)", "next() == 1 && (%s)"]) % r.choice(conds)
        fuel = r.choice([fuel, fuel, "next()"])
        body = "t = t - 1; " * ("t >" in fuel) + seq(d - 1, True, inf)
        if ext and k < 0.7:
            return "do { %s } while (%s);" % (body, fuel)
        if ext and k < 0.77:
            return "for (int i = 0; %s; i = i + 1) { %s }" % (r.choice(["i < 3", "i < 2 && next()", "next()", "i < x && i < 4"]), seq(d - 1, True, inf))
        return "while (%s) { %s }" % (fuel, body)

    fs = ["int f%d(int x, int z) { int a[7] = {3, 0, x, 1, 0, x, 2}; int t = 9; %s return x + a[1]; }" % (i, seq(3, False, False)) for i in range(n)]
    calls = ["fuel = %d; putint(f%d(x, z)); putch(32);" % (r.randint(4, 14), i) for i in range(n)]
    src = ("int fuel;\nint next() { fuel = fuel - 1; return fuel > 0; }\nint g(int x, int y) { if (y) return x %% 5; return x - 1; }\n%s\n"
           "int main() { int z = getint(); int n = getint(); while (n > 0) { int x = getint(); %s n = n - 1; } return 0; }\n" % ("\n".join(fs), "\n ".join(calls)))
    return parse.program(src, [0, 6, 0, 1, 2, 4, 7, -3], name, 60000)


def folds(name, part, parts):
    """operations whose operands the compiler knows: as literals, through local variables, through parameters of a
    function and in constant definitions, next to the same operation on operands read at run time"""
    ivals = [0, 1, -1, 2, 3, -3, 7, -8, 10, 31, 100, -100, 4096, 65536, -65537, 46340, IMAX, IMIN, IMAX - 1, IMIN + 1]
    fvals = ["0.0", "1.0", "-1.0", "0.5", "1.5", "-2.5", "3.0", "4.0", "0.25", "-0.75", "100.0", "65536.0", "-8.0"]
    def tdiv(a, b):
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    ok = lambda v: IMIN <= v <= IMAX
    iops = {"+": lambda a, b: ok(a + b), "-": lambda a, b: ok(a - b), "*": lambda a, b: ok(a * b), "/": lambda a, b: b and not (a == IMIN and b == -1),
            "%": lambda a, b: b and not (a == IMIN and b == -1)}
    for q in CMPS + ("&&", "||"):
        iops[q] = lambda a, b: True
    fops = ["+", "-", "*", "/"] + list(CMPS)
    glob, fs, main, inp = [], [], [], []
    k = 0
    cases = [("i", a, b, o) for o, g in iops.items() for a in ivals for b in ivals if g(a, b)]
    def fits(o, x, y):
        if o == "/" and (y == 0 or abs(y) in (3, 1.5, 2.5, 0.75, 100)):
            return False
        return o in CMPS or abs(eval("x %s y" % o)) < 2 ** 17 and not (o in "*/" and 0 in (x, y) and (x < 0 or y < 0))
    cases += [("f", a, b, o) for o in fops for a in fvals for b in fvals if fits(o, float(a), float(b))]
    for t, a, b, o in cases[part::parts]:
        k += 1
        fl = t == "f"
        la, lb = (a, b) if fl else (lit(a), lit(b))
        la, lb = ("(%s)" % v if v[0] == "-" else v for v in (la, lb))
        ty = "float" if fl else "int"
        cmp = o in CMPS or o in ("&&", "||")
        e = "%s %s %s"
        # a condition is only written where the grammar has conditions
        form = (k + part) % 5
        res = "int" if cmp or not fl else "float"
        put = "putint(%s); putch(32);" if res == "int" else "putint((%s) * 64 + 0.5); putch(32);".replace("(%s)", "(%s)")
        if form == 0:
            main.append("{ %s a = %s; %s b = %s; %s }" % (ty, la, ty, lb, put % (e % ("a", o, "b"))))
        elif form == 1:
            fs.append("%s o%d(%s a, %s b) { return %s; }" % (res, k, ty, ty, e % ("a", o, "b")))
            main.append(put % ("o%d(%s, %s)" % (k, la, lb)))
        elif form == 2:
            glob.append("const %s k%d = %s;" % (res, k, e % (la, o, lb))) if not cmp else main.append("if (%s) putch(89); else putch(78);" % (e % (la, o, lb)))
            if not cmp:
                main.append(put % ("k%d" % k))
        elif form == 3:
            main.append("{ %s a = %s; if (%s) putch(97); if (!(%s)) putch(98); }" % (ty, la, (e % ("a", o, lb)) if cmp else (e % ("a", o, lb)) + " > 5", (e % ("a", o, lb)) if cmp else (e % ("a", o, lb)) + " > 5"))
        else:
            main.append("{ %s a = %s; %s b = a; a = %s; %s }" % (ty, lb, ty, la, put % (e % ("a", o, "b"))))
    if part % 2:
        for v in fvals + ["2.75", "-2.75", "0.96875", "-0.125", "65536.0"]:
            main.append("{ float x = %s; int i = x; float y = i; putint(i); putch(44); putint(y == x); putch(44); putint(i * 2 + (y < x)); putch(32); }" % v)
        for v in [0, 1, -1, 7, -8, 65536, -65535, 1000]:
            main.append("{ int i = %s; float x = i; putint(x > 3); putch(44); i = x / 2; putint(i); putch(32); }" % lit(v))
    n = max(1, len(main) // 12)
    parts_ = [main[i:i + n] for i in range(0, len(main), n)]
    src = "\n".join(glob + fs + ["void m%d() {\n%s\n}" % (i, "\n".join(m)) for i, m in enumerate(parts_)])
    src += "\nint main() { %s return 0; }\n" % " ".join("m%d();" % i for i in range(len(parts_)))
    return parse.program(src, inp, name, 60000)


def nests(name, part, parts):
    """two operations, one inside the other, with small constants: x op c, c op x inside op2 c2, c2 op2 or op2 y"""
    def div(a, b):
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    ok = lambda v: v is not None and IMIN <= v <= IMAX
    ops = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: div(a, b) if b else None,
           "%": lambda a, b: a - div(a, b) * b if b else None, "==": lambda a, b: int(a == b), "<": lambda a, b: int(a < b)}
    cs = [0, 1, -1, 2]
    inner = [(o, c, left) for o in ops for c in cs for left in (0, 1)]
    outer = inner + [(o, c, left) for o in ops for c in "xy" for left in (0, 1)]
    inner += [(o, "x", 0) for o in ops]
    xs = [0, 1, -1, 5, -7, 1000000, IMAX, IMIN]
    cases = [(i, o) for i in inner for o in outer]
    decl, main, inp = [], [], []
    for k, ((o1, c1, l1), (o2, c2, l2)) in list(enumerate(cases))[part::parts]:
        vals = []
        for x in xs[k % 3:] + xs[:k % 3]:
            y = (x * 7 + 3) % 11 - 5
            a = ops[o1](c1, x) if l1 else ops[o1](x, x if c1 == "x" else c1)
            if ok(a):
                d = {"x": x, "y": y}.get(c2, c2)
                b = ops[o2](d, a) if l2 else ops[o2](a, d)
                if ok(b) and not (IMIN in (a, x) and "%" in (o1, o2)):
                    vals.append((x, y))
        vals = vals[:4]
        if not vals:
            continue
        num = lambda c: c if isinstance(c, str) else lit(c)
        e = "(%s %s x)" % (num(c1), o1) if l1 else "(x %s %s)" % (o1, num(c1))
        d = num(c2)
        e = "%s %s %s" % ((d, o2, e) if l2 else (e, o2, d))
        decl.append("int e%d(int x, int y) { return %s; }" % (k, e))
        main.append("  n = getint(); while (n > 0) { x = getint(); putint(e%d(x, getint())); putch(32); n = n - 1; }" % k)
        inp.append(len(vals))
        for v in vals:
            inp += v
    n = max(1, len(main) // 8)
    src = "\n".join(decl) + "\n" + "\n".join("void m%d() { int n; int x;\n%s\n}" % (i // n, "\n".join(main[i:i + n])) for i in range(0, len(main), n))
    src += "\nint main() { %s return 0; }\n" % " ".join("m%d();" % (i // n) for i in range(0, len(main), n))
    return parse.program(src, inp, name, 60000)


def programs(share=1, locals_up_to=400, big=True, ranges_share=1):
    """share: every share-th group of constants"""
    cs = constants()
    out = []
    # neighbouring constants go to different programs, so that every program sees all magnitudes
    groups = [cs[i::28] for i in range(28)]
    for i, g in enumerate(groups):
        if i % share == 0:
            out.append(program(g, "T%d" % i))
    out += [accesses("T%d" % (40 + i), i, 40) for i in range(40) if i % share == 0]
    out += [ranges("T%d" % (100 + i), i, 20) for i in range(20) if i % (share * ranges_share) == 0]
    out += [skeletons("T%d" % (140 + i), 1000 + i, 5, i % 3 == 0) for i in range(40) if i % share == 0]
    out += [folds("T%d" % (180 + i), i, 16) for i in range(16) if i % share == 0]
    out += [nests("T%d" % (200 + i), i, 20) for i in range(20) if i % share == 0]
    bounds = sorted({1, 2} | {b + d for b in (31, 63, 127, 255, 511) for d in (-1, 0, 1, 2)})
    out.append(offsets("T90", "global", 520, bounds))
    out.append(offsets("T91", "param", 520, bounds))
    out.append(offsets("T92", "row", 520, bounds))
    out.append(offsets("T93", "local", locals_up_to, [b for b in bounds if b < locals_up_to - 2]))
    if big:
        bounds = [1, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 8190, 8191, 8192, 8193]
        out.append(offsets("T94", "global", 8200, bounds))
        out.append(offsets("T95", "param", 8200, bounds))
    return out
