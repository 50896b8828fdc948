"""Idiom templates: program shapes that real SysY programs use and that the optimiser has
transformations for.  A template is a function of a random source; it returns
(text, [(lo, hi) of each parameter]) where the unit function is called U@ and every name
ending in @ is made unique.  Templates only propose programs: definedness is decided by
the specification."""
from .gen import Var, Fn, IMAX, IMIN
from . import parse

ALL = []


def idiom(f):
    ALL.append(f)
    return f


def cst(r, lo=None, hi=None):
    k = r.random()
    if lo is not None:
        return r.randint(lo, hi)
    if k < 0.5:
        return r.randint(-9, 9)
    return r.choice([-1, 1]) * r.choice([16, 31, 64, 100, 127, 128, 255, 256, 1000, 1023, 2047, 2048, 4095, 4096, 32767, 32768, 65535])


def pick(r, *xs):
    return r.choice(xs)


# ------------------------------------------------------------------ loops
@idiom
def sumloop(r):
    e = pick(r, "i", "k", "i * k", "i * i", "i * %d + k" % cst(r), "%d" % cst(r), "i / 2", "(i + k) * i", "i * i * i", "k - i", "i % 3", "k * k")
    op = pick(r, "+", "+", "-")
    cmp_ = pick(r, "i < n", "i < n", "i <= n", "n > i", "i < n + 2", "i + 1 < n")
    step = pick(r, 1, 1, 1, 2, 3, 5)
    a = pick(r, 0, 0, 1, -2, 3)
    post = pick(r, "", " + i", " * 2 - i")
    return ("""int U@(int n, int k) { int s = %d; int i = %d; while (%s) { s = s %s %s; i = i + %d; } return s%s; }"""
            % (pick(r, 0, 0, 1, 100), a, cmp_, op, e, step, post), [(-3, 40), (-100, 100)])


@idiom
def sumloop_down(r):
    e = pick(r, "i", "k", "i * k", "i * i", "a@[i %% %d]" % r.choice([4, 8, 3]))
    c = pick(r, ("i > 0", "i = i - 1;", ""), ("i >= 0", "", "i = i - 1;"), ("i != 0", "i = i - 1;", "") if r.random() < 0.4 else ("i > 2", "i = i - 1;", ""))
    lo = 0 if "!=" in c[0] else -3
    return ("""int a@[8] = {3, 1, 4, 1, 5, 9, 2, 6};
int U@(int n, int k) { int s = 0; int i = n; while (%s) { %s s = s + %s; %s } return s; }""" % (c[0], c[1], e, c[2]), [(lo, 30), (-50, 50)])


@idiom
def nested(r):
    inner = pick(r, "m", "i", "i + 1", "n - i", "3", "8")
    e = pick(r, "i * j", "i + j", "1", "i - j", "(i + 1) * (j + 2)", "i * m + j", "i %s j" % pick(r, "<", ">", "=="))
    brk = pick(r, "", "", "if (j == %d) break;" % r.randint(0, 5), "if (i + j == %d) { j = j + 1; continue; }" % r.randint(0, 6))
    return ("""int U@(int n, int m) { int s = 0; int i = 0; while (i < n) { int j = 0; while (j < %s) { %s s = s + %s; j = j + 1; } %s i = i + 1; } return s; }"""
            % (inner, brk, e, pick(r, "", "s = s - i;", "if (s > 1000) s = s - 500;")), [(-1, 9), (-1, 9)])


@idiom
def fill(r):
    n = pick(r, 4, 8, 10, 16, 20, 33, 64)
    v = pick(r, "0", "-1", "1", "i", "k", "i * 3", "k + i", "n - i")
    b = pick(r, "n", "%d" % n)
    loc = r.random() < 0.5
    return ("""%s
int U@(int n, int k) { %s int i = 0; while (i < %s) { a@[i] = %s; i = i + 1; } int s = 0; i = 0; while (i < %s) { s = s + a@[i] * %s; i = i + 1; } return s; }"""
            % ("" if loc else "int a@[%d];" % n, "int a@[%d]%s;" % (n, "" if b != "n" else "") if loc else "", b, v, b, pick(r, "1", "i", "2", "(i + 1)")),
            [(0, n), (-100, 100)])


@idiom
def fill2d(r):
    n, m = pick(r, 2, 3, 4, 5), pick(r, 2, 3, 4, 8)
    v = pick(r, "0", "-1", "7", "i", "j", "i * %d + j" % m, "k", "i == j")
    loc = r.random() < 0.4
    dec = "int a@[%d][%d]%s;" % (n, m, " = {}" if loc else "")
    rd = pick(r, "a@[x][y]", "a@[x][y] * (x + 1)", "a@[x][y] - a@[x][0]")
    return ("""%s int U@(int k, int q) { %s int i = 0; while (i < %d) { int j = 0; while (j < %d) { a@[i][j] = %s; j = j + 1; } i = i + 1; }
 a@[q][q] = k; int s = 0; int x = 0; while (x < %d) { int y = 0; while (y < %d) { s = s * 3 + %s; s = s / 2; y = y + 1; } x = x + 1; } return s; }"""
            % ("" if loc else dec, dec if loc else "", n, m, v, n, m, rd), [(-100, 100), (0, min(n, m) - 1)])


@idiom
def copyloop(r):
    n = pick(r, 8, 16, 20)
    d = pick(r, 0, 0, 1, 2)
    e = pick(r, "a@[i + %d]" % d, "a@[i + %d] + b@[i]" % d, "a@[%d - i]" % (n - 1), "a@[i + %d] * k" % d, "b@[i] + 1")
    alias = r.random() < 0.3
    return ("""int a@[%d]; int b@[%d];
int U@(int n, int k) { int i = 0; while (i < %d) { a@[i] = i * 7 %% 11; b@[i] = i; i = i + 1; }
 i = 0; while (i < n) { %s[i] = %s; i = i + 1; } i = 0; int s = 0; while (i < %d) { s = s + a@[i] * (i + 1) - b@[i]; i = i + 1; } return s; }"""
            % (n, n, n, "a@" if alias else "b@", e, n), [(0, n - d), (-20, 20)])


@idiom
def matmul(r):
    n = pick(r, 2, 3, 4, 5)
    order = pick(r, "ijk", "ikj", "jik", "kij", "jki")
    loops = {"i": "i", "j": "j", "k": "k"}
    upd = "c@[i][j] = c@[i][j] + a@[i][k] * b@[%s];" % pick(r, "k][j", "j][k")
    body = upd
    for v in reversed(order):
        body = "int %s = 0; while (%s < %d) { %s %s = %s + 1; }" % (v, v, n, body, v, v)
    pr = "putint(c@[x][y]); putch(32);" if r.random() < 0.5 else "s = s + c@[x][y] * (x * 3 + y + 1);"
    return ("""int a@[%d][%d]; int b@[%d][%d]; int c@[%d][%d];
int U@(int p, int q) { int x = 0; int s = 0; while (x < %d) { int y = 0; while (y < %d) { a@[x][y] = x * p + y; b@[x][y] = q - x + 2 * y; c@[x][y] = 0; y = y + 1; } x = x + 1; }
 %s x = 0; while (x < %d) { int y = 0; while (y < %d) { %s y = y + 1; } x = x + 1; } return s; }"""
            % (n, n, n, n, n, n, n, n, "{ " + body + " }", n, n, pr), [(-9, 9), (-9, 9)])


@idiom
def transposed(r):
    n = pick(r, 3, 4, 6)
    acc = pick(r, "m@[j][i]", "m@[j][i] + m@[j][0]", "m@[j][i] * m@[0][i]", "m@[j][i] - m@[i][j]")
    return ("""int m@[%d][%d];
int U@(int k, int q) { int i = 0; while (i < %d) { int j = 0; while (j < %d) { m@[j][i] = i * k + j; j = j + 1; } i = i + 1; }
 int s = 0; i = 0; while (i < %d) { int j = 0; while (j < %d) { s = s + %s * (j + 1); j = j + 1; } i = i + 1; } return s + m@[q][%d]; }"""
            % (n, n, n, n, n, n, acc, r.randrange(n)), [(-9, 9), (0, n - 1)])


@idiom
def unswitch(r):
    c = pick(r, "k > 0", "k == 3", "k != m", "k %% 2 == 0", "k > 0 && m > 0", "k > 0 || m == 1", "k").replace("%%", "%")
    els = pick(r, "else s = s - i;", "", "else { s = s + 1; if (m > 2) s = s + m; }", "else break;")
    return ("""int U@(int n, int k, int m) { int s = 0; int i = 0; while (i < n) { if (%s) s = s + %s; %s i = i + 1; } return s; }"""
            % (c, pick(r, "i", "k", "i * m", "2"), els), [(-2, 30), (-5, 5), (-3, 5)])


@idiom
def licm(r):
    e = pick(r, "k * m + 3", "(k + m) * (k - m)", "g@ * k", "k / 3 + m", "t@[k %% 4 * 0 + 1] + m".replace("%%", "%"), "m / (k * k + 1)")
    st = pick(r, "", "g@ = g@ + 1;", "t@[1] = i;", "if (i == 3) g@ = 5;")
    return ("""int g@ = 4; int t@[4] = {1, 2, 3, 4};
int U@(int n, int k, int m) { int s = 0; int i = 0; while (i < n) { int v = %s; %s s = s + v; i = i + 1; } return s + g@ + t@[1]; }""" % (e, st),
            [(0, 20), (-20, 20), (-20, 20)])


@idiom
def exits(r):
    return ("""int a@[10] = {%s};
int U@(int x, int n) { int i = 0; while (%s) { %s if (a@[i] %s x) %s i = i + 1; } return %s; }"""
            % (", ".join(str(r.randint(-5, 9)) for _ in range(10)), pick(r, "i < 10", "i < n", "i < n && a@[i] != 2", "i < 9 && i < n"),
               pick(r, "", "if (i == 7) return -7;", "if (a@[i] == 0) { i = i + 1; continue; }"), pick(r, "==", ">", ">=", "!="),
               pick(r, "return i;", "break;", "return a@[i] * 2;"), pick(r, "-1", "i", "i * 10 + a@[0]")), [(-6, 10), (0, 10)])


@idiom
def while1(r):
    b = pick(r, "i >= n", "i == n", "s > 200 || i >= n", "i * i > n + 100")
    e = pick(r, "i", "i * i", "a@[i %% 5]".replace("%%", "%"), "k")
    return ("""int a@[5] = {2, 3, 5, 7, 11};
int U@(int n, int k) { int s = 0; int i = 0; while (1) { s = s + %s; i = i + 1; if (%s) break; %s } return s * 2 + i; }"""
            % (e, b, pick(r, "", "if (s %% 2 == 1) s = s + 1;".replace("%%", "%"), "s = s - 1;")), [(1, 30), (0, 9)])


@idiom
def dualiv(r):
    return ("""int U@(int n, int k) { int i = 0; int j = %s; int s = 0; while (%s) { s = s + %s; i = i + %d; j = j - %d; } return s + i * 3 + j; }"""
            % (pick(r, "n", "k", "100"), pick(r, "i < j", "i < n", "i < n && j > 0", "j > i + 2"), pick(r, "i * j", "i + j", "j - i", "(i + 1) / (j * j + 1)"),
               pick(r, 1, 2, 3), pick(r, 1, 1, 2)), [(-2, 30), (-10, 40)])


@idiom
def polyidx(r):
    m = pick(r, 3, 4, 5)
    ix = pick(r, "i * %d + j" % m, "j * %d + i" % m, "(i + j) %% %d" % (m * m), "i * %d + (%d - j)" % (m, m - 1))
    return ("""int a@[%d];
int f@(int p[], int x, int y) { return p[x * %d + y]; }
int U@(int k, int q) { int i = 0; while (i < %d) { int j = 0; while (j < %d) { a@[%s] = a@[%s] + i * k + j; j = j + 1; } i = i + 1; }
 int s = 0; i = 0; while (i < %d) { s = s * 2 %% 10007 + a@[i] / 3; i = i + 1; } return s + f@(a@, q, %d); }"""
            % (m * m, m, m, m, ix, ix, m * m, r.randrange(m)), [(0, 9), (0, m - 1)])


@idiom
def stencil(r):
    n = pick(r, 8, 12, 16)
    e = pick(r, "a@[i - 1] + a@[i + 1]", "a@[i - 1] + a@[i] * 2 + a@[i + 1]", "a@[i + 1] - a@[i - 1]", "a@[i - 1] + k")
    dst = pick(r, "b@", "a@")
    return ("""int a@[%d]; int b@[%d];
int U@(int k, int n) { int i = 0; while (i < %d) { a@[i] = (i * k) / 3; b@[i] = 0; i = i + 1; } i = 1; while (i < n) { %s[i] = %s; i = i + 1; }
 int s = 0; i = 0; while (i < %d) { s = s + (i + 1) * b@[i] - a@[i]; i = i + 1; } return s; }""" % (n, n, n, dst, e, n), [(-9, 9), (0, n - 1)])


# -------------------------------------------------------------- arithmetic
@idiom
def divmod(r):
    cs = [pick(r, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 25, 31, 32, 60, 64, 100, 125, 127, 128, 255, 256, 625, 641, 1000, 1024, 1023, 4095, 4096,
                7919, 10007, 65535, 65536, 65537, 1000000, 16777213, 1 << 24, (1 << 30) - 1, 1 << 30, (1 << 30) + 1, 1000000007, IMAX - 1, IMAX) * pick(r, 1, 1, 1, -1)
          for _ in range(3)]
    body = []
    for c in cs:
        e = pick(r, "x / %d", "x %% %d", "x / %d * %d" % (c, c) + " - x", "x %% %d == 0", "x %% %d != 1", "x / %d > y", "(x / %d) / 3")
        e = e % c if "%d" in e or "%%" in e else e
        body.append("putint(%s); putch(32);" % e)
    return ("int U@(int x, int y) { %s return y; }" % " ".join(body), [(-IMAX, IMAX), (-10, 10)])


@idiom
def divpos(r):
    c = pick(r, 2, 3, 4, 7, 8, 10, 16, 64, 100, 1000, 1024, 10007, 65536)
    g = pick(r, "x >= 0", "x > 0", "x < 0", "x > %d" % (c * 3), "x < %d && x > 0" % (c * 2), "x < %d && x > -%d" % (c, c))
    return ("""int U@(int x, int y) { if (%s) { putint(x / %d); putch(32); putint(x %% %d); putch(32); if (x %% %d %s %d) y = y + 1; } else { putint(x %% %d); putch(44); } return x / %d + y; }"""
            % (g, c, c, c, pick(r, "==", "<", ">=", "!="), pick(r, 0, 1, c - 1), c, c), [(-100000, 100000), (-5, 5)])


@idiom
def mulconst(r):
    cs = [pick(r, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 60, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 99999) * pick(r, 1, 1, -1) for _ in range(3)]
    return ("int U@(int x, int y) { putint(x * %d); putch(32); putint(y * %d + x); putch(32); return %s; }"
            % (cs[0], cs[1], pick(r, "x * %d - y * %d" % (cs[2], cs[2]), "(x + y) * %d" % cs[2], "x * %d * 2" % cs[2], "-(x * %d)" % cs[2], "x * %d / %d" % (abs(cs[2]), abs(cs[2])))),
            [(-9999, 9999), (-9999, 9999)])


@idiom
def identities(r):
    es = ["x + 0", "x - 0", "x * 1", "x * 0", "x / 1", "x % 1", "x - x", "x / x", "x % x", "0 - x", "-(-x)", "x * -1", "x / -1", "0 / x", "0 % x", "(x + 3) - 3",
          "(x - y) + y", "x - (x - y)", "-(x - y)", "x * 2 / 2", "x + x", "(x + y) - (y + x)", "x * 3 + x * 5", "x * y - y * x", "(x == y) == 0", "!(x < y)", "!!x", "!x == y",
          "x == x", "x < x", "x <= x", "x != x", "(x < y) + (y < x)", "(x <= y) == !(x > y)", "(x + 1 > y) * 2", "-x == y", "x + 5 == y + 5", "x * 4 == 12", "x - 3 < 7", "3 - x > y",
          "(x > 0) * x + (x <= 0) * -x", "x / 2 * 2 + x % 2", "(x == 1) + (x == 2) + (x == 3)", "(x && y) || !x", "x > 0 && x > 5", "x > 3 || x > 1", "x >= 2 && x <= 2",
          "!(x && y) == (!x || !y)", "(x > y) == (y < x)", "x * (y + 1) - x * y", "(x - 1) * (x + 1)", "x / 3 / 5", "x / 4 / 8", "x % 12 % 4", "x % 4 % 12", "(x * 8) % 4", "(x * 6) / 3", "(x * 3) % 3",
          "(x > 2) - (x < -2)", "y * (x != 0)", "(x + y) / 1 - 0", "x + y * 0", "(x > y) != 0", "(x < y) == 1", "1 - (x == y)", "(x == 0) * (y == 0)", "(x - y == 0) + 4", "x + y == y", "x * x >= 0"]
    ch = [r.choice(es) for _ in range(5)]
    return ("int U@(int x, int y) { %s return %s; }" % (" ".join("putint(%s); putch(32);" % e for e in ch), r.choice(es)),
            [(1, 3000), (-3000, 3000)] if any("/ x" in e or "% x" in e for e in ch) or True and r.random() < 0.3 else [(-3000, 3000), (-3000, 3000)])


@idiom
def minmax(r):
    k = pick(r, "int m = x; if (y > m) m = y; if (z > m) m = z; return m;",
             "int m = x; if (m > y) m = y; if (m > z) m = z; return m - z;",
             "if (x < 0) x = -x; if (y < 0) y = -y; return x - y + z;",
             "if (x > %d) x = %d; if (x < %d) x = %d; return x * 2 + y;" % (c := r.randint(5, 300), c, d := r.randint(-300, 4), d),
             "int a = x; if (x < y) a = y; int b = x; if (x > y) b = y; return a * 3 - b + z;",
             "int s = 0; if (x > 0) s = 1; if (x < 0) s = -1; if (x == 0) s = y; return s * z;",
             "int d = x - y; if (d < 0) d = y - x; if (d > z) return d; return z;",
             "if (x == y) x = z; else x = y; if (z != 3) y = x; return x + y * 2;",
             "int m = x; if (x < y) { m = y; } else { if (x < z) m = z; } return m;")
    return ("int U@(int x, int y, int z) { %s }" % k, [(-400, 400)] * 3)


@idiom
def bounds(r):
    c = pick(r, IMAX, IMAX - 1, -IMAX, -IMAX - 1 + 2, 2147483647, -2147483647, 0, 1, -1, 65535, 32768, 1 << 30)
    op = pick(r, "<", "<=", ">", ">=", "==", "!=")
    op2 = pick(r, "<", "<=", ">", ">=", "==", "!=")
    d = c + pick(r, 0, 0, 1, -1)
    d = max(-IMAX, min(IMAX, d))
    return ("""int U@(int x, int y) { int s = 0; if (x %s %d) s = s + 1; if (x %s %d && x %s %d) s = s + 2; if (x %s %d || y %s %d) s = s + 4; if (!(x %s y)) s = s + 8; if (%d %s x) s = s + 16; return s; }"""
            % (op, c, op, c, op2, d, op2, d, op, c, op2, d, op), [(-IMAX, IMAX), (-IMAX, IMAX)])


@idiom
def constraints(r):
    o = lambda: pick(r, "<", "<=", ">", ">=", "==", "!=")
    return ("""int U@(int a, int b, int c) { int s = 0; if (a %s b) { s = 1; if (a %s b) s = s + 2; if (b %s c) { if (a %s c) s = s + 4; else s = s + 8; } } else { if (a %s b) s = s + 16; if (a %s c && b %s c) s = s + 32; }
 if (a %s %d) { if (a %s %d) s = s + 64; if (a + 1 %s %d) s = s + 128; } return s; }"""
            % (o(), o(), o(), o(), o(), o(), o(), o(), r.randint(-3, 3), o(), r.randint(-3, 3), o(), r.randint(-3, 3)), [(-4, 4)] * 3)


@idiom
def inset(r):
    vals = sorted({r.randint(0, pick(r, 10, 31, 40, 63, 100)) for _ in range(r.randint(2, 7))})
    off = pick(r, 0, 0, -20, 50)
    vals = [v + off for v in vals]
    if r.random() < 0.5:
        c = " || ".join("x == %d" % v for v in vals)
        neg = r.random() < 0.3
        return ("int U@(int x) { int s = x; if (%s) s = s * 2 + 1; return s; }" % ("!(%s)" % c if neg else c), [(min(vals) - 40, max(vals) + 40)])
    c = " && ".join("x != %d" % v for v in vals)
    return ("int U@(int x) { if (%s) return x - 1; return 1000 + x; }" % c, [(min(vals) - 40, max(vals) + 40)])


@idiom
def ifchain(r):
    n = r.randint(3, 9)
    vals = r.sample(range(-5, 25), n) if r.random() < 0.5 else list(range(k := r.randint(-2, 5), k + n))
    dup = r.random() < 0.2
    if dup:
        vals[-1] = vals[0]
    ret = lambda i: pick(r, "%d" % (i * 3 + 1), "x * %d" % i, "y + %d" % i, "y - x", "%d" % cst(r))
    if r.random() < 0.5:
        s = "".join("if (x == %d) %s " % (v, "return %s;" % ret(i)) for i, v in enumerate(vals)) + "return y;"
    else:
        s = "int s = 0; " + " else ".join("if (x == %d) { s = %s; %s }" % (v, ret(i), pick(r, "", "putch(65);", "y = y + 1;")) for i, v in enumerate(vals)) + " else s = y; return s + y;"
    return ("int U@(int x, int y) { %s }" % s, [(-8, 28), (-100, 100)])


@idiom
def statemachine(r):
    n = r.randint(3, 5)
    body = " else ".join("if (st == %d) { s = s + %s; st = %s; }" % (i, pick(r, "%d" % cst(r, -9, 9), "x", "i"), pick(r, "%d" % r.randrange(n), "(x + i) %% %d" % n, "(st + 1) %% %d" % n)) for i in range(n))
    return ("int U@(int x, int n) { int st = 0; int s = 0; int i = 0; while (i < n) { %s i = i + 1; } return s * 10 + st; }" % body, [(0, 50), (0, 20)])


@idiom
def rangecheck(r):
    lo, hi = sorted([r.randint(-100, 200), r.randint(-100, 200)])
    a, b = pick(r, ("x >= %d" % lo, "x <= %d" % hi), ("x > %d" % lo, "x < %d" % hi), ("x >= %d" % lo, "x < %d" % hi), ("%d <= x" % lo, "%d > x" % hi))
    c = pick(r, "%s && %s" % (a, b), "!(%s) || !(%s)" % (a, b), "%s && %s && x != %d" % (a, b, (lo + hi) // 2))
    return ("int U@(int x, int y) { if (%s) { putch(73); return y + 1; } putch(79); return %s; }" % (c, pick(r, "y", "x", "(%s) + (%s)" % (a, b))), [(-150, 250), (-9, 9)])


@idiom
def bitloop(r):
    return ("""int U@(int x, int y) { int r = 0; int b = 1; int k = 0; while (k < %d) { int p = x %% 2; int q = y %% 2; if (%s) r = r + b; x = x / 2; y = y / 2; b = b * 2; k = k + 1; } return r; }"""
            % (pick(r, 8, 16, 20, 30), pick(r, "p == 1 && q == 1", "p != q", "p == 1 || q == 1", "p == q", "p > q")), [(0, 70000), (0, 70000)])


@idiom
def modarith(r):
    m = pick(r, 7, 17, 1009, 10007, 65537, 998244353, 1000000007)
    k = pick(r, 0, 1, 2, 3)
    if k == 0:      # power by squaring
        mm = min(m, 30011) if m > 46340 else m
        return ("int U@(int b, int e) { int r = 1; b = b %% %d; while (e > 0) { if (e %% 2 == 1) r = r * b %% %d; b = b * b %% %d; e = e / 2; } return r; }" % (mm, mm, mm), [(0, 30000), (0, 1000)])
    if k == 1:      # addition chain product
        return ("int mul@(int a, int b) { if (b == 0) return 0; if (b == 1) return a %% %d; int c = mul@(a, b / 2); c = (c + c) %% %d; if (b %% 2 == 1) return (c + a) %% %d; return c; }\nint U@(int a, int b) { return mul@(a, b); }" % (m, m, m),
                [(0, min(m - 1, 10 ** 9)), (0, 1000)])
    if k == 2:
        mm = min(m, 65537)
        return ("int U@(int s, int n) { int i = 0; while (i < n) { s = (s * %d + %d) %% %d; i = i + 1; } return s; }" % (pick(r, 3, 16, 25, 31), pick(r, 1, 7, 12345), mm), [(0, mm - 1), (0, 25)])
    return ("int U@(int n, int k) { int s = 0; int i = 0; while (i < n) { s = (s + %s) %% %d; i = i + 1; } return s; }" % (pick(r, "i", "k", "i * k", "i * i"), m), [(0, 40), (0, 100)])


@idiom
def modchain(r):
    m = pick(r, 2, 3, 7, 8, 16, 17, 64, 100, 256, 1009, 4096, 46337)
    q = pick(r, 2, 10, 64, 1000, 40000)
    e = pick(r, "a %% %(m)d * b %% %(m)d", "(a %% %(m)d) * (b %% %(q)d) %% %(m)d", "a %% %(m)d * b %% %(m)d * c %% %(m)d", "(a %% k) * b %% k", "(a + b) %% %(m)d * c %% %(m)d",
             "a %% %(m)d + b %% %(m)d", "(a %% %(m)d + b %% %(m)d) %% %(m)d", "(a %% %(m)d - b %% %(m)d) %% %(m)d", "a %% %(m)d / %(q)d + b %% %(q)d / %(m)d", "a / %(q)d %% %(m)d * c") % dict(m=m, q=q)
    g = pick(r, "", "if (a < 0) a = -a; if (b < 0) b = -b;", "if (a > 40000) a = 40000; if (b > %d) return -1;" % pick(r, 100, 40000), "a = a %% %d; b = b %% %d;" % (q, m), "if (a < 0 || b < 0) return b;")
    hi = pick(r, 60, 2000, 46340)
    k = pick(r, 3, 8, 16, 1009)
    return ("int U@(int a, int b, int c) { int k = %s; %s return %s; }" % (pick(r, str(k), "c * c + %d" % k), g, e), [(-hi, hi), (-hi if hi < 46340 else 0, min(hi, 40000)), (0, pick(r, 1, 9, 40))])


@idiom
def gcds(r):
    return pick(r, ("int g@(int a, int b) { if (b == 0) return a; return g@(b, a % b); }\nint U@(int a, int b) { return g@(a, b); }", [(0, 5000), (0, 5000)]),
                ("int U@(int a, int b) { while (b != 0) { int t = a % b; a = b; b = t; } return a; }", [(-5000, 5000), (-5000, 5000)]),
                ("int U@(int a, int b) { while (a != b) { if (a > b) a = a - b; else b = b - a; } return a; }", [(1, 60), (1, 60)]),
                ("int U@(int n, int k) { int s = 0; while (n > 0) { s = s * 10 + n % 10; n = n / 10; } return s + k; }", [(0, 99999), (0, 9)]),
                ("int U@(int n, int k) { int c = 0; while (n != 1 && c < 60) { if (n % 2 == 0) n = n / 2; else n = n * 3 + 1; c = c + 1; } return c * k; }", [(1, 200), (1, 5)]))


# ------------------------------------------------------------------- calls
@idiom
def recursion(r):
    return pick(r, ("int f@(int n) { if (n < 2) return n; return f@(n - 1) + f@(n - 2); }\nint U@(int n, int k) { return f@(n) + k; }", [(-1, 10), (0, 9)]),
                ("int f@(int n) { if (n <= 0) return 1; return n * f@(n - 1); }\nint U@(int n, int k) { return f@(n) / k; }", [(-1, 12), (1, 9)]),
                ("int f@(int n, int a) { if (n == 0) return a; return f@(n - 1, a + n); }\nint U@(int n, int k) { return f@(n, k); }", [(0, 60), (-9, 9)]),
                ("int f@(int n, int a, int b) { if (n <= 0) return a; if (n % 3 == 0) return f@(n - 2, b, a + 1); return f@(n - 1, b + n, a); }\nint U@(int n, int k) { return f@(n, k, 1); }", [(0, 60), (-9, 9)]),
                ("int c@ = 0; void f@(int n) { c@ = c@ + n; if (n > 0) f@(n - 1); c@ = c@ - 1; }\nint U@(int n, int k) { f@(n); return c@ * k; }", [(0, 40), (-9, 9)]),
                ("int f@(int n, int m) { if (n == 0) return m + 1; if (m == 0) return f@(n - 1, 1); return f@(n - 1, f@(n, m - 1)); }\nint U@(int n, int m) { return f@(n, m); }", [(0, 2), (0, 3)]),
                ("int f@(int n, int k) { if (k == 0 || n == k) return 1; return f@(n - 1, k - 1) + f@(n - 1, k); }\nint U@(int n, int k) { return f@(n + k, k); }", [(0, 4), (0, 4)]),
                ("void h@(int n, int a, int b, int c) { if (n == 0) return; h@(n - 1, a, c, b); putch(48 + a); putch(48 + b); putch(32); h@(n - 1, c, b, a); }\nint U@(int n, int k) { h@(n, 1, k, 3); return 0; }", [(0, 4), (2, 2)]),
                ("int e@(int n, int p) { if (n == 0) return p; return e@(n - 1, !p); }\nint U@(int n, int k) { return e@(n, k) + e@(n + 1, k) * 2; }", [(0, 50), (0, 1)]))


@idiom
def memo(r):
    return pick(r, ("int f@(int i, int j) { if (i == 0) return j; if (j == 0) return i; return f@(i - 1, j) %% %d + f@(i, j - 1) / 2 + %s; }\nint U@(int a, int b) { return f@(a, b); }" % (pick(r, 101, 1000), pick(r, "1", "i", "i * j")), [(0, 5), (0, 5)]),
                ("int f@(int n, int k) { if (n <= 0) return k; int a = f@(n - 2, k + 1); int b = f@(n - 3, k - 1); return a + b * %d; }\nint U@(int a, int b) { return f@(a, b); }" % pick(r, 1, 2, -1), [(-2, 11), (-4, 4)]),
                ("float f@(int n, int k) { if (n <= 0) return k * 0.5; return f@(n - 1, k) + f@(n - 2, k + 1); }\nint U@(int a, int b) { float x = f@(a, b); return x * 2; }", [(-2, 8), (-4, 4)]))


@idiom
def manyargs(r):
    n = r.randint(6, 14)
    fl = r.random() < 0.3
    ps = ["a%d" % i for i in range(n)]
    ty = ["float" if fl and r.random() < 0.5 else "int" for _ in ps]
    e = " + ".join("%s%s" % (p, " * %d" % r.randint(1, 9) if r.random() < 0.6 else "") for p in r.sample(ps, n))
    body = "return %s;" % e if r.random() < 0.5 else "if (n == 0) return 0; int s = %s; return s + f@(n - 1, %s);" % (e, ", ".join(r.sample(ps, n) if not fl else ps))
    rec = "n - 1" in body
    args = ", ".join(pick(r, "x", "y", "x + %d" % i, "%d" % cst(r, -9, 9), "x * y") if t == "int" else pick(r, "0.5", "x", "1.25", "y * 0.5") for i, t in enumerate(ty))
    ret = "float" if fl and r.random() < 0.3 and not rec else "int"
    return ("%s f@(%s%s) { %s }\nint U@(int x, int y) { int r = f@(%s%s); return r - f@(%s%s); }" %
            (ret, "int n, " if rec else "", ", ".join("%s %s" % (t, p) for t, p in zip(ty, ps)), body, "3, " if rec else "", args, "2, " if rec else "", args), [(-20, 20), (-20, 20)])


@idiom
def pressure(r):
    n = r.randint(10, 34)
    decl = "".join("int v%d = %s; " % (i, pick(r, "x + %d" % i, "y * %d" % i, "x - y * %d" % i, "v%d + %d" % (r.randrange(i), i) if i else "x", "getv@(%d)" % i if r.random() < 0.3 else "x + y")) for i in range(n))
    use = " + ".join("v%d * %d" % (i, r.randint(1, 5)) for i in r.sample(range(n), n))
    call = pick(r, "", "getv@(3);", "int t = getv@(x); v0 = v0 + t;")
    lp = r.random() < 0.4
    mid = "int k = 0; while (k < 3) { %s k = k + 1; }" % " ".join("v%d = v%d / 2 + %s;" % (a, r.randrange(n), pick(r, "k", "v%d / 4" % r.randrange(n), "1")) for a in r.sample(range(n), min(n, 8))) if lp else ""
    return ("int c@ = 0; int getv@(int k) { c@ = c@ + 1; return k * 2 - c@; }\nint U@(int x, int y) { %s %s %s return %s; }" % (decl, call, mid, use), [(-50, 50), (-50, 50)])


@idiom
def fpressure(r):
    n = r.randint(6, 26)
    decl = "".join("float v%d = %s; " % (i, pick(r, "x + %d" % i, "x * 0.5", "v%d + 1.5" % r.randrange(i) if i else "x", "gf@(%d)" % i if r.random() < 0.3 else "x - %d.25" % i)) for i in range(n))
    use = " + ".join("v%d%s" % (i, " * %d" % r.randint(1, 3) if r.random() < 0.4 else "") for i in r.sample(range(n), n))
    return ("float c@ = 0.5; float gf@(int k) { c@ = c@ + 1; return k + c@; }\nint U@(int a, int b) { float x = a * 0.5; %s %s float s = %s; putfloat(s); putch(10); return s > b; }" % (decl, pick(r, "", "gf@(1);"), use),
            [(-20, 20), (-20, 20)])


@idiom
def bigframe(r):
    n = pick(r, 100, 600, 1100, 3000, 9000)
    m = pick(r, 5, 40, 700)
    i1, i2 = r.randrange(n), r.randrange(m)
    return ("""int use@(int p[], int i, int v) { p[i] = p[i] + v; return p[i]; }
int U@(int x, int y) { int a[%d] = {}; int b[%d] = {1, 2}; a[%d] = x; b[%d] = y; a[%d] = 7; int s = use@(a, %d, y) + use@(b, %d, x); %s return s + a[%d] * 2 + b[%d] + a[%d] + b[1]; }"""
            % (n, m, i1, i2, n - 1, i1, i2, "use@(a, x * x %% %d, 3); s = s + a[x * x %% %d];" % (n, n) if r.random() < 0.5 else "", i1, i2, n - 1), [(-100, 100), (-100, 100)])


@idiom
def sideeffects(r):
    c = pick(r, "f@(x) && g@(y)", "f@(x) || g@(y)", "!f@(x) && g@(y) > 1", "f@(x) + g@(y) > 2", "f@(x) && (g@(y) || f@(y))", "(f@(x) || g@(x)) && g@(y)", "f@(y) == g@(x)")
    return ("""int n@ = 0; int f@(int v) { n@ = n@ * 2 + 1; putch(70); return v > 0; } int g@(int v) { n@ = n@ * 3; putch(71); return v; }
int U@(int x, int y) { int s = 0; if (n@ > 9) n@ = 0; if (%s) s = 5; else s = 9; while (n@ < 50 && %s) { n@ = n@ + 7; } return s + n@; }""" % (c, pick(r, "f@(y)", "g@(x) > 0", c)), [(-3, 3), (-3, 3)])


@idiom
def globalstate(r):
    ops = ["g@ = g@ + x;", "h@[x] = g@;", "g@ = h@[(x + 1) %% 4] - 1;".replace("%%", "%"), "set@(x);", "h@[0] = h@[0] + 1;", "if (g@ > 3) g@ = 0;", "int t = g@; set@(t %% 3 + 1); h@[3] = t - g@;".replace("%%", "%"), "u@ = u@ + g@;", "s = s + g@ * 2 + h@[x];"]
    body = []
    for i in range(r.randint(3, 7)):
        o = r.choice(ops)
        body.append("{ %s }" % o)
    return ("""int g@ = 2; int h@[4] = {1, 0, 2}; int u@; const int k@ = %d; int w@ = %d;
void set@(int v) { g@ = v + k@; h@[v %% 4] = w@; }
int U@(int x, int y) { int s = 0; int i = 0; while (i < y) { %s i = i + 1; } return s + g@ * 100 + h@[0] + h@[3]; }""" % (cst(r, -5, 9), cst(r, -5, 9), " ".join(body)), [(0, 3), (0, 5)])


@idiom
def alias(r):
    same = r.random() < 0.5
    ops = " ".join(pick(r, "p[i] = q[j] + 1;", "q[j] = p[i] * 2;", "int t = p[0]; q[i] = t; s = s + p[0];", "s = s + p[j]; q[0] = s;", "p[j] = p[i]; s = s + q[i];", "if (p[i] > q[j]) p[i] = q[j];") for _ in range(r.randint(2, 4)))
    ops = ops.replace("int t", "t")
    return ("""int a@[8] = {4, 3, 2, 1}; int b@[8] = {1, 1, 2, 3, 5, 8};
int f@(int p[], int q[], int i, int j) { int s = 0; int t = 0; %s return s; }
int U@(int x, int y) { int r = f@(a@, %s, x, y); r = r * 3 + f@(b@, a@, y, x); int k = 0; while (k < 8) { r = (r + a@[k] * (k + 1) + b@[k]) / 2; k = k + 1; } return r; }""" % (ops, "a@" if same else "b@"), [(0, 7), (0, 7)])


@idiom
def aliasloop(r):
    """a loop whose loads and stores go through parameters that may name the same array"""
    body = pick(r, "p[k] = p[k] + q[i] + 1;", "p[k] = p[k] + q[i]; s = s + q[k];", "p[i] = q[k] + i;", "p[k] = i; s = s + q[i];",
                "p[i] = p[i] + q[0]; q[k] = q[k] - 1;", "p[k] = q[i]; p[k] = p[k] + 1;", "s = s + p[k] * q[i]; p[i] = s;", "g@ = g@ + q[i]; p[k] = g@;",
                "q[i] = g@; g@ = g@ + p[k];", "p[i] = q[i + 1]; q[i] = p[i];", "p[i + 1] = q[i] + 1;", "p[7 - i] = q[i];")
    extra = pick(r, "", "", "if (p[k] > %d) s = s + 1;" % r.randint(0, 60), "if (q[i] > %d) p[k] = 0;" % r.randint(3, 30), "s = s + g@;")
    loop = pick(r, "while (i < n) { %s %s i = i + 1; }", "while (i < n) { %s i = i + 1; %s }", "while (i < 7) { %s %s i = i + 1; }") % (body, extra)
    if "i = i + 1; if" in loop:
        loop = loop.replace("i < n", "i < n - 1")
    return ("""int g@ = 1; int a@[16] = {4, 3, 2, 1, 9}; int b@[16] = {1, 1, 2, 3, 5, 8, 13};
int f@(int p[], int q[], int n, int k) { int s = 0; int i = 0; %s return s + p[k] * 3 + q[k]; }
int U@(int n, int k) { int r = f@(a@, a@, n, k); r = r * 2 + f@(a@, b@, n, k); if (n > 3) r = r + f@(b@, b@, n, k); %s int j = 0; while (j < 16) { r = (r + a@[j] * (j + 1) + b@[j]) / 2; j = j + 1; } return r + g@; }"""
            % (loop, pick(r, "", "r = r + f@(b@, a@, k, n);")), [(0, 7), (0, 7)])


@idiom
def storekill(r):
    """stores that look overwritten: on one path only, by a store to another element, or after a read through another name"""
    st = lambda: pick(r, "a@[i] = x;", "a@[j] = y;", "a@[0] = x;", "a@[i + 1] = i;", "g@ = x;", "g@ = y + 1;", "t[i] = y;", "t[j] = x;", "t[0] = i;", "p[i] = x;", "p[j] = y;")
    rd = lambda: pick(r, "s = s + a@[i];", "s = s + a@[j] * 2;", "s = s + g@;", "s = s + t[i];", "s = s + t[j] * 3;", "s = s + p[0];", "s = s + f@(i);", "if (x > y) s = s + p[i];", "if (s > 9) return s;")
    c = pick(r, "x > y", "i < j", "s > 5", "a@[i] > 2", "t[j] == 0", "f@(j) > 0")
    b1 = " ".join(pick(r, st, rd)() for _ in range(r.randint(1, 3)))
    b2 = " ".join(pick(r, st, rd)() for _ in range(r.randint(0, 2)))
    b3 = " ".join(pick(r, st, st, rd)() for _ in range(r.randint(1, 3)))
    w = pick(r, "%s", "%s", "while (i < 7) { %s i = i + 1; }", "while (i < 7 && j > 0) { j = j - 1; %s i = i + 1; }", "while (x > 0) { x = x - 5; i = (i + 1) %% 8; %s }")
    mid = w % ("if (%s) { %s } else { %s } %s" % (c, b1, b2, b3))
    return ("""int g@ = 2; int a@[16] = {4, 3, 2, 1, 9};
int f@(int i) { return a@[i] + g@; }
int h@(int x, int y, int i, int j, int p[]) { int s = 0; int t[10] = {}; %s %s %s if (i > 7) i = 7; s = s + t[i] + p[j]; return s; }
int U@(int x, int y) { int b[16] = {5, 6, 7}; int i = (x + 50) %% 7; int j = (y + 50) %% 7; int r = h@(x, y, i, j, b) + b[1]; r = r + h@(y, x, j, i, a@) * 3; int k = 0; while (k < 16) { r = (r + a@[k] * (k + 1) + b[k]) / 2; k = k + 1; } return r + g@; }"""
            % (st(), mid, pick(r, "", st(), rd())), [(-20, 20), (-20, 20)])


@idiom
def rows(r):
    n, m = pick(r, 2, 3, 4), pick(r, 3, 4, 5)
    return ("""int m@[%d][%d] = {{1, 2, 3}, {4}};
int sum@(int p[], int n) { int s = 0; int i = 0; while (i < n) { s = s + p[i] * (i + 1); i = i + 1; } return s; }
void add@(int p[][%d], int i, int j, int v) { p[i][j] = p[i][j] + v; %s }
int U@(int x, int y) { add@(m@, x, y, 5); add@(m@, 0, 1, x); int s = sum@(m@[x], %d) * 10 + sum@(m@[%d], y); %s putarray(%d, m@[x]); return s; }"""
            % (n, m, m, pick(r, "", "p[0][0] = v;", "if (i > 0) p[i - 1][j] = v;"), m, r.randrange(n), pick(r, "", "int l[%d][%d] = {}; l[x][y] = s; s = s + sum@(l[x], %d);" % (n, m, m)), m), [(0, n - 1), (0, m - 1)])


@idiom
def cube(r):
    a, b, c = r.randint(2, 4), r.randint(2, 3), r.randint(2, 5)
    return ("""int q@[%d][%d][%d] = {{{1, 2}, {3}}, {{4}}};
int s@(int p[][%d][%d], int i) { return p[i][1][1] + p[i][0][0] * 3; }
int t@(int p[], int i) { return p[i]; }
int U@(int x, int y, int z) { q@[x][y][z] = 9; q@[x][z %% %d][1] = q@[x][y][z] + y; int s = 0; int i = 0; while (i < %d) { int j = 0; while (j < %d) { s = s * 2 + q@[i][j][%d]; s = s %% 10007; j = j + 1; } i = i + 1; } return s + s@(q@, x) + t@(q@[x][y], z); }"""
            % (a, b, c, b, c, b, a, b, r.randrange(c)), [(0, a - 1), (0, b - 1), (0, c - 1)])


@idiom
def constexpr(r):
    return ("""int p@(int n) { int s = 1; int i = 0; while (i < n) { s = s * %d + i; i = i + 1; } return s; }
int q@(int a, int b) { if (a > b) return a - b; return p@(b - a); }
int U@(int x, int y) { return p@(%d) + q@(%d, %d) + q@(x, %d) * y; }""" % (pick(r, 1, 2, 3), r.randint(0, 9), r.randint(0, 9), r.randint(0, 9), r.randint(0, 6)), [(0, 9), (-9, 9)])


@idiom
def shrinkwrap(r):
    return ("""int g@ = 0; int w@(int n) { if (n < %d) return n; int s = 0; int i = 0; while (i < n) { s = s + w@(i / 2); i = i + 1; } g@ = g@ + s; return s %s; }
int U@(int x, int y) { int r = w@(x); return r * y + g@; }""" % (pick(r, 1, 2, 3), pick(r, "+ 1", "- n", "% 100")), [(-2, 9), (-9, 9)])


@idiom
def deadret(r):
    return ("""int g@ = 1; int f@(int x, int unused, int y) { g@ = g@ + x; if (y > 3) return x; return y; }
void v@(int a, int b) { int t = f@(a, b, a); if (t > 100) putch(33); f@(b, t, 1); }
int U@(int x, int y) { f@(x, y, 1); int k = 0; while (k < 3) { v@(k, y); k = k + 1; } %s return g@; }""" % pick(r, "", "int z = f@(y, x, 5); g@ = g@ - z;"), [(-50, 50), (-50, 50)])


@idiom
def tails(r):
    return pick(r, ("void p@(int n, int k) { if (n < 0) return; putint(n * k); putch(32); p@(n - 1, k + 1); }\nint U@(int n, int k) { p@(n, k); return 1; }", [(-1, 8), (-3, 9)]),
                ("int s@(int a[], int n, int acc) { if (n == 0) return acc; return s@(a, n - 1, acc * 2 - a[n - 1]); }\nint U@(int n, int k) { int b[8] = {1, 2, 3, 4, 5}; b[7] = k; return s@(b, n, k); }", [(0, 8), (-9, 9)]),
                ("int b@(int a[], int lo, int hi, int x) { if (lo >= hi) return -lo; int m = (lo + hi) / 2; if (a[m] == x) return m; if (a[m] < x) return b@(a, m + 1, hi, x); return b@(a, lo, m, x); }\nint U@(int x, int n) { int t[10] = {1, 3, 4, 7, 9, 12, 15, 15, 20, 31}; return b@(t, 0, n, x); }", [(0, 33), (0, 10)]),
                ("int f@(int x, int y, int z) { if (x <= 0) return y * 3 + z; return f@(x - 1, z, y + x); }\nint U@(int x, int y) { return f@(x, y, 2); }", [(-2, 30), (-9, 9)]),
                ("int r@(int x) { if (x <= 0) return 0; return 1 + r@(x - 2); }\nint U@(int x, int y) { return r@(x) * y; }", [(-2, 50), (-9, 9)]),
                ("int m@(int x) { if (x <= 1) return 1; return x * m@(x - 1) % 1009; }\nint U@(int x, int y) { return m@(x) * y; }", [(-2, 30), (-9, 9)]))


@idiom
def blockarg(r):
    return ("""int U@(int n, int m) { int f = 0; int s = 0; int i = 0; while (i < n) { if (f) { s = s + i; if (i > m) f = 0; } else { s = s - 1; if (i %% %d == %d) f = 1; } %s i = i + 1; } if (f) return s; return -s; }"""
            % (pick(r, 2, 3, 5), pick(r, 0, 1), pick(r, "", "if (f && i == m) { s = s * 2; }", "if (!f) s = s + 2;")), [(0, 25), (-2, 25)])


@idiom
def tailstore(r):
    return ("""int a@[6]; int g@;
int U@(int x, int y) { if (x > y) { a@[x] = %s; g@ = %s; } else { %s a@[x] = y; g@ = %s; } if (g@ > 2) a@[y] = 1; else a@[y] = %s; int r = a@[x] * 10 + a@[y] + g@; a@[x] = 0; a@[x] = r; if (x == 2) return a@[x]; a@[0] = 5; return a@[x] + a@[0]; }"""
            % (pick(r, "x", "y", "1"), pick(r, "x", "3"), pick(r, "", "a@[y] = 8;", "putch(66);"), pick(r, "y", "x + 1"), pick(r, "1", "x", "g@")), [(0, 5), (0, 5)])


@idiom
def lut(r):
    n = pick(r, 4, 7, 8, 16)
    ty = "int"
    return ("""const int t@[%d] = {%s}; const int z@[3][2] = {{1, 2}, {3}, {5, 6}};
int U@(int x, int y) { int s = t@[x] + z@[y][1]; int i = 0; while (i < %d) { s = s * 2 - t@[i]; s = s / 2; i = i + 1; } return s + t@[%d] * z@[2][y %% 2]; }""" % (n, ", ".join(str(cst(r)) for _ in range(r.randint(1, n))), n, r.randrange(n)), [(0, n - 1), (0, 2)])


# ------------------------------------------------------------- algorithms
@idiom
def sorting(r):
    n = pick(r, 5, 6, 8)
    init = ", ".join(str(r.randint(-30, 30)) for _ in range(n))
    alg = pick(r, "int i = 0; while (i < n - 1) { int j = 0; while (j < n - i - 1) { if (a@[j] > a@[j + 1]) { int t = a@[j]; a@[j] = a@[j + 1]; a@[j + 1] = t; } j = j + 1; } i = i + 1; }",
               "int i = 1; while (i < n) { int t = a@[i]; int j = i - 1; while (j >= 0 && a@[j] > t) { a@[j + 1] = a@[j]; j = j - 1; } a@[j + 1] = t; i = i + 1; }",
               "int i = 0; while (i < n) { int m = i; int j = i + 1; while (j < n) { if (a@[j] < a@[m]) m = j; j = j + 1; } int t = a@[m]; a@[m] = a@[i]; a@[i] = t; i = i + 1; }",
               "q@(0, n - 1);")
    pre = "void q@(int l, int r) { if (l >= r) return; int p = a@[r]; int i = l; int j = l; while (j < r) { if (a@[j] < p) { int t = a@[i]; a@[i] = a@[j]; a@[j] = t; i = i + 1; } j = j + 1; } a@[r] = a@[i]; a@[i] = p; q@(l, i - 1); q@(i + 1, r); }\n" if "q@" in alg else ""
    return ("int a@[%d] = {%s};\n%sint U@(int n, int x) { a@[0] = x; %s putarray(%d, a@); return a@[n / 2]; }" % (n, init, pre, alg, n), [(1, n), (-40, 40)])


@idiom
def sieve(r):
    n = pick(r, 20, 30)
    return ("int s@[%d]; int U@(int n, int k) { int i = 2; int c = 0; while (i < n) { s@[i] = %s; i = i + 1; } i = 2; while (i * i < n) { if (s@[i] == %s) { int j = i * i; while (j < n) { s@[j] = %s; j = j + i; } } i = i + 1; } i = 2; while (i < n) { if (s@[i] == %s) c = c + i * k; i = i + 1; } return c; }"
            % ((n,) + pick(r, ("1", "1", "0", "1"), ("0", "0", "1", "0"))), [(0, n), (1, 3)])


@idiom
def dp(r):
    return pick(r, ("int w@[5] = {1, 2, 3, 5, 7}; int v@[5] = {2, 3, 6, 9, 11}; int d@[21]; int U@(int n, int k) { int i = 0; while (i <= 20) { d@[i] = 0; i = i + 1; } i = 0; while (i < k) { int j = n; while (j >= w@[i]) { int t = d@[j - w@[i]] + v@[i]; if (t > d@[j]) d@[j] = t; j = j - 1; } i = i + 1; } return d@[n]; }", [(0, 20), (0, 5)]),
                ("int x@[6] = {1, 2, 3, 2, 1, 4}; int y@[6] = {2, 1, 3, 1, 2, 4}; int d@[7][7]; int U@(int n, int m) { int i = 1; while (i <= n) { int j = 1; while (j <= m) { if (x@[i - 1] == y@[j - 1]) d@[i][j] = d@[i - 1][j - 1] + 1; else { d@[i][j] = d@[i - 1][j]; if (d@[i][j - 1] > d@[i][j]) d@[i][j] = d@[i][j - 1]; } j = j + 1; } i = i + 1; } return d@[n][m]; }", [(0, 6), (0, 6)]),
                ("int q@[6]; int ok@(int r, int c) { int i = 0; while (i < r) { if (q@[i] == c || q@[i] - c == r - i || c - q@[i] == r - i) return 0; i = i + 1; } return 1; } int go@(int r, int n) { if (r == n) return 1; int s = 0; int c = 0; while (c < n) { if (ok@(r, c)) { q@[r] = c; s = s + go@(r + 1, n); } c = c + 1; } return s; }\nint U@(int n, int k) { return go@(0, n) + k; }", [(1, 4), (0, 2)]),
                ("int d@[4][4] = {{0, 3, 99, 7}, {8, 0, 2, 99}, {5, 99, 0, 1}, {2, 99, 99, 0}}; int U@(int a, int b) { int k = 0; while (k < 4) { int i = 0; while (i < 4) { int j = 0; while (j < 4) { if (d@[i][k] + d@[k][j] < d@[i][j]) d@[i][j] = d@[i][k] + d@[k][j]; j = j + 1; } i = i + 1; } k = k + 1; } return d@[a][b]; }", [(0, 3), (0, 3)]),
                ("int n@[8] = {1, 2, 3, 4, 5, 6, 7, -1}; int U@(int x, int k) { int s = 0; int c = x; while (c != -1) { s = s + c * k; int t = n@[c]; if (c == 2) n@[c] = 5; c = t; } return s; }", [(0, 7), (-9, 9)]),
                ("int f@[30]; int U@(int n, int k) { f@[0] = 1; f@[1] = k; int i = 2; while (i < n) { f@[i] = (f@[i - 1] + f@[i - 2]) % 1007; i = i + 1; } return f@[n - 1]; }", [(2, 30), (0, 9)]))


# ------------------------------------------------------------------ floats
@idiom
def floats(r):
    return pick(r, ("int U@(int a, int b) { float x = a; float y = b * 0.25; float s = 0; int i = 0; while (i < 4) { s = s + x * y; x = x + 0.5; i = i + 1; } putfloat(s); putch(10); return s; }", [(-20, 20), (-20, 20)]),
                ("float t@[4] = {0.5, 1.5, -2.25}; int U@(int a, int b) { float m = t@[0]; int i = 1; while (i < 4) { if (t@[i] %s m) m = t@[i]; i = i + 1; } t@[a] = b; putfloat(m + t@[3]); putch(10); return m * 4 + b; }" % pick(r, ">", "<", "<=", ">=", "!="), [(0, 3), (-20, 20)]),
                ("float f@(float x, int n, float y) { if (n > 0) return x * 2 - y; return y - x; }\nint U@(int a, int b) { float r = f@(a, b, 1.5) + f@(0.5, a, b); putfloat(r); putch(32); int k = r; return k - b; }", [(-50, 50), (-50, 50)]),
                ("int U@(int a, int b) { float x = a / 4.0; float y = b / 8.0; int s = 0; if (x < y) s = s + 1; if (x <= y) s = s + 2; if (x == y) s = s + 4; if (x != y) s = s + 8; if (!(x > y)) s = s + 16; if (x >= y) s = s + 32; if (x) s = s + 64; if (!y) s = s + 128; return s; }", [(-12, 12), (-24, 24)]),
                ("int U@(int a, int b) { float x = a * 0.5; if (x < 0) x = 0 - x; float y = x + b; if (y > 10) y = 10; if (y < -10.5) y = -10.5; putfloat(y); putch(10); int z = y; return z; }", [(-40, 40), (-40, 40)]),
                ("const float h@ = 0.125; float g@ = 2.5; int U@(int a, int b) { float s = g@ * a + h@ * b; g@ = s / 2; int c = s; int d = -s; putint(c); putch(32); putint(d); putch(32); putfloat(g@); putch(10); return s > 0.0 && s < 100; }", [(-40, 40), (-40, 40)]),
                ("int U@(int a, int b) { int s = a * 0.5 + b * 0.25; int t = a + 0.5; int u = -0.75 + b; return s * 100 + t * 10 + u; }", [(-40, 40), (-40, 40)]))


@idiom
def scopes(r):
    return ("""int x@ = 3; int U@(int x, int y) { int s = x; { int x = y + 1; s = s + x; { int y = x * 2; x = y - s; s = s + y; } s = s - x; } if (s > 0) { int s = 7; x = x + s; } int i = 0; while (i < 3) { int x = i * 2; int t%s; if (i == 0) t = x; else t = s; s = s + t + x; i = i + 1; } return s * 2 + x + x@; }"""
            % pick(r, "", " = 1"), [(-50, 50), (-50, 50)])


@idiom
def printing(r):
    return ("""int U@(int x, int y) { putint(x); putch(10); putint(-y); putch(32); int a[4] = {x, y, x + y}; putarray(%d, a); float f = y; putfloat(f * 0.5); putch(10); int i = 0; while (i < 3) { putch(65 + i + (x > y)); i = i + 1; } return i + x; }""" % r.randint(0, 4), [(-IMAX // 4, IMAX // 4), (-100000, 100000)])


@idiom
def inputs(r):
    return ("""int b@[8]; int U@(int x, int y) { int n = x; int i = 0; int s = 0; while (i < n) { b@[i] = i * y - x; i = i + 1; } i = n - 1; while (i >= 0) { s = s * %d + b@[i]; if (s > 100000 || s < -100000) s = s / 1000; i = i - 1; } return s; }""" % pick(r, 2, 3, -1), [(0, 8), (-9, 9)])


@idiom
def earlyret(r):
    return ("""int f@(int x, int y) { if (x < 0) { if (y < 0) return 1; return 2; } int i = 0; while (i < 5) { if (i * x > y) return i; int j = 0; while (j < 3) { if (j + i == y) return 10 + j; j = j + 1; } i = i + 1; } if (x == y) return -1; return -2; %s }
int U@(int x, int y) { return f@(x, y) * 3 + f@(y, x); }""" % pick(r, "", "putch(63); return 0;"), [(-9, 20), (-9, 20)])


@idiom
def parloop(r):
    n = pick(r, 16, 32, 40)
    e = pick(r, "i * k + 3", "a@[i] + k", "a@[i] * 2 - i", "b@[i] + a@[i]", "i / 2 - k", "k", "b@[n - 1 - i]")
    red = pick(r, "", "", "s = s + a@[i];", "s = s + i * k;")
    return ("""int a@[%d]; int b@[%d];
int U@(int n, int k) { int i = 0; int s = 0; while (i < %d) { b@[i] = i * i %% 7; a@[i] = i; i = i + 1; } i = 0; while (i < n) { a@[i] = %s; %s i = i + 1; } i = 0; while (i < %d) { s = s + a@[i] * (i %% 5 + 1); i = i + 1; } return s; }"""
            % (n, n, n, e, red, n), [(0, n), (-20, 20)])


@idiom
def nestpar(r):
    n, m = pick(r, 4, 6, 8), pick(r, 4, 5, 8)
    e = pick(r, "i * %d + j + k" % m, "c@[i][j] + k", "c@[i][j] * k + j", "i - j", "c@[i][j] + d@[j]")
    return ("""int c@[%d][%d]; int d@[%d];
int U@(int n, int k) { int i = 0; while (i < n) { int j = 0; while (j < %d) { c@[i][j] = %s; j = j + 1; } i = i + 1; }
 i = 0; while (i < n) { int j = 0; int t = 0; while (j < %d) { t = t + c@[i][j]; j = j + 1; } d@[i %% %d] = t; i = i + 1; }
 int s = 0; i = 0; while (i < %d) { s = s + d@[i] * (i + 1); i = i + 1; } return s; }""" % (n, m, m, m, e, m, m, m), [(0, n), (-9, 9)])


# ------------------------------------------------------------------ driver
# ------------------------------------------------------------------ values at the ends of the type
def xc(r):
    """a constant, often near the end of the type"""
    k = r.choice([0, 1, -1, 2, -2, IMAX, IMAX - 1, -IMAX, -IMAX, 1 << 30, -(1 << 30), 65535, -65536, 32767, -32768, 2047, -2048, 255, -256, 4095, -4096, r.randint(-IMAX, IMAX)])
    return "(-2147483647 - 1)" if r.random() < 0.12 else str(k)


CMPS = ("<", "<=", ">", ">=", "==", "!=")


@idiom
def extremes(r):
    full = [(IMIN, IMAX), (IMIN, IMAX)]
    c = lambda: pick(r, *CMPS)
    k = r.random()
    if k < 0.3:
        t = "".join("if (%s %s %s) putch(%d);%s " % (pick(r, "x", "y"), c(), pick(r, "x", "y", "y", xc(r), xc(r)), 65 + i, pick(r, "", " else putch(%d);" % (97 + i))) for i in range(r.randint(2, 6)))
        return ("int U@(int x, int y) { %s putch(10); return x; }" % t, full)
    if k < 0.5:
        t = "".join("s = s * 2 + (%s %s %s); " % (pick(r, "x", "y"), c(), pick(r, "x", "y", xc(r), xc(r))) for i in range(r.randint(2, 8)))
        return ("int U@(int x, int y) { int s = 0; %s return s; }" % t, full)
    if k < 0.65:
        return ("int U@(int x, int y) { int m = x; if (y %s m) m = y; int n = %s; if (x %s n) n = x; putint(m); putch(32); putint(n); putch(10); if (m %s n) return m; return n; }" % (c(), xc(r), c(), c()), full)
    if k < 0.8:
        return ("int U@(int x, int y) { int n = 0; while (x %s %s) { x = x / %s; n = n + 1; if (n > 40) break; } return n * 2 + (x %s y); }" % (c(), pick(r, "y", xc(r)), pick(r, "2", "3", "10", "-2", "-7", "64"), c()), full)
    if k < 0.9:
        return ("int U@(int x, int y) { if (%s %s %s %s %s %s %s) return 1; if (!(x %s %s)) return 2; return 3; }" % ("x", c(), xc(r), pick(r, "&&", "||"), "y", c(), xc(r), c(), pick(r, "y", xc(r))), full)
    return ("int U@(int x, int y) { int a = x / %s; int b = x %% %s; int d = y / %s; putint(a); putch(32); putint(b); putch(32); putint(d); putch(32); putint(y %% %s); return (a %s d) + (b %s y) * 2; }" % (xc(r), xc(r), xc(r), xc(r), c(), c()), full)


# ------------------------------------------------------------------ neighbouring accesses and what may come between them
@idiom
def neighbours(r):
    n = pick(r, 4, 6, 8)
    acts = []
    for i in range(r.randint(3, 8)):
        k = pick(r, 0, 2, n - 2) if r.random() < 0.6 else r.randint(0, n - 2)
        v = lambda: pick(r, "x", "y", "0", "0", "s", "x + y", str(r.randint(-9, 9)))
        mid = lambda: pick(r, "", "", "", "s = s % 99 * 3 + p[%d];".replace("% 99", "%% 99") % r.randint(0, n - 1), "s = s + p[j];", "p[%d] = s;" % r.randint(0, n - 1), "p[j] = x;", "s = s - a@[j];", "t = a@[%d];" % k, "a@[%d] = y;" % r.randint(0, n - 1), "x = x + 1;", "s = s + g@(%d);" % k)
        acts.append(pick(r, "a@[%d] = %s; %s a@[%d] = %s;" % (k, v(), mid(), k + 1, v()),
                         "p[%d] = %s; %s p[%d] = %s;" % (k, v(), mid(), k + 1, v()),
                         "a@[%d] = %s; %s a@[%d] = %s;" % (k + 1, v(), mid(), k, v()),
                         "t = a@[%d]; %s s = s + t * a@[%d];" % (k, mid(), k + 1),
                         "t = p[%d]; %s s = s + t - p[%d];" % (k, mid(), k + 1),
                         "t = p[%d]; u = p[%d]; %s a@[%d] = t; a@[%d] = u;" % (k, k + 1, mid(), k, k + 1),
                         "b@[%d] = a@[%d]; %s b@[%d] = a@[%d];" % (k, k, mid(), k + 1, k + 1)))
    return ("""int a@[%d]; int b@[%d] = {1, 2, 3, 4}; int g@(int k) { a@[k] = a@[k] + 1; return k; }
int f@(int p[], int x, int y, int j) { int s = x; int t = 0; int u = y; %s if (s > 30000 || s < -30000) s = s %% 1000; return s + t * 2 + u; }
int U@(int x, int y) { int q[%d] = {y, x, 3}; int r = f@(%s, x, y, %d) %% 10000; r = r * 2 + f@(%s, y, r, %d) %% 10000; putarray(%d, a@); putarray(%d, b@); putarray(%d, q); return r; }"""
            % (n, n, " ".join(acts), n, pick(r, "a@", "q", "a@", "b@"), r.randint(0, n - 1), pick(r, "a@", "q", "b@"), r.randint(0, n - 1), n, n, n), [(-20, 20), (-20, 20)])


def make(g, t=None):
    """instantiate a template in generator g; returns the unit function"""
    r = g.r
    for _ in range(20):
        f = t or r.choice(ALL)
        text, ranges = f(r)
        tag = g.fresh("k")
        text = text.replace("@", tag)
        try:
            gl, fs, order = parse.parse(text)
        except SyntaxError as e:
            raise SyntaxError("%s: %s in %s" % (f.__name__, e, text))
        g.globals.extend(gl)
        for n in order:
            g.funcs[n] = fs[n]
            g.order.append(n)
        u = Fn()
        u.name = "U" + tag
        u.params = [Var(p[0], "i", (), lo, hi, param=True, pos=lo >= 0) for p, (lo, hi) in zip(fs[u.name]["params"], ranges)]
        u.ret, u.lo, u.hi, u.cost, u.pos = "i", -IMAX, IMAX, 50, False
        u.idiom = f.__name__
        return u
