"""Seeded generator of SysY programs that stay inside the defined part of the language
(no signed overflow, no division by zero, no index out of range): every integer
expression carries an interval and every variable keeps to a declared one.  The
generator is only a producer: the specification decides whether a program is defined."""
import random
from .ast import *

IMAX = 2 ** 31 - 1
IMIN = -2 ** 31

SPECIAL = [0, 1, 2, 3, 4, 5, 7, 8, 10, 12, 13, 15, 16, 17, 31, 32, 33, 60, 63, 64, 100, 127, 128, 255, 256, 257, 511, 512,
           1000, 1023, 1024, 2047, 2048, 2049, 4095, 4096, 10007, 32767, 32768, 65535, 65536, 65537, 998244353 % 100000007,
           1000000007 % IMAX, 16777215, 1073741823, 1073741824, 2147483646, IMAX]


class Var:
    __slots__ = ("name", "ty", "dims", "lo", "hi", "ro", "glob", "param", "hidden", "write", "pos")

    def __init__(s, name, ty="i", dims=(), lo=0, hi=0, ro=False, glob=False, param=False, hidden=0, write=False, pos=False):
        s.pos = pos                              # only ever holds "plain non-negative" values, see Gen.plain
        s.name, s.ty, s.dims, s.lo, s.hi, s.ro, s.glob, s.param = name, ty, list(dims), lo, hi, ro, glob, param
        s.hidden, s.write = hidden, write        # array parameters: guaranteed first dimension; written through

    def shape(s):
        return [s.hidden if k == 0 and s.param else d for k, d in enumerate(s.dims)]


class Fn:
    __slots__ = ("name", "params", "ret", "lo", "hi", "cost", "effects", "pos", "idiom")


def mentions(e, name):
    return e == name or (isinstance(e, list) and any(mentions(x, name) for x in e))


def size(e):
    return 1 + sum(size(x) for x in e if isinstance(x, list)) if isinstance(e, list) else 0


def json_tags(e):
    s = {e[0]}
    for x in e[1:]:
        if isinstance(x, list) and x and isinstance(x[0], str):
            s |= json_tags(x)
    return s


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Gen:
    def __init__(self, rng, ext=0.0, floats=0.15, calls=True, size=1.0):
        self.r = rng
        self.ext = ext            # probability of language extensions beyond SysY2022
        self.floats = floats
        self.n = 0
        self.scopes = []
        self.fns = []
        self.funcs = {}
        self.order = []
        self.globals = []
        self.calls = calls
        self.size = size
        self.loop_depth = 0
        self.cost = 1             # product of enclosing trip counts
        self.nofn = False
        self.maxcost = 300
        self.posn = {}

    ixd = 0

    # ---- remainders
    # cmmc is known to merge ((a % m) + b) % m into (a + b) % m although the operands may
    # have different signs (known finding F1, pinned by one of its own tests).  Programs
    # therefore take "% m" either of plain non-negative values, or of something that is
    # not a sum that could contain another remainder.
    def plain(self, e):
        """all leaves non-negative, no operation that could produce or lose a sign"""
        t = e[0]
        if t == "n":
            return e[1] >= 0
        if t in ("v", "ix", "IX", "C"):
            return self.posn.get(e[1], False)
        if t in ("b", "B"):
            if e[1] in ("<", ">", "<=", ">=", "==", "!="):
                return True
            if e[1] in ("/", "%"):
                return self.plain(e[2]) and e[3][0] == "n" and e[3][1] > 0
            return e[1] in ("+", "*", "&", "|", "^", ">>", "<<") and self.plain(e[2]) and self.plain(e[3])
        if t in ("and", "or", "AND", "OR"):
            return True
        if t in ("u", "U"):
            return e[1] == "!"
        if t in ("cond", "COND"):
            return self.plain(e[2]) and self.plain(e[3])
        return False

    def nosum(self, e):
        """not a sum and not a variable that could hold one"""
        t = e[0]
        if t == "n":
            return True
        if t in ("b", "B"):
            if e[1] in ("/", "*"):
                return all(x[0] != "n" or abs(x[1]) > 2 for x in e[2:4]) and not (e[1] == "*" and e[2][0] == e[3][0] == "n")
            return e[1] in ("<", ">", "<=", ">=", "==", "!=")
        return t in ("and", "or", "AND", "OR") or (t in ("u", "U") and e[1] == "!")

    def modop(self, t):
        """prepare t as the left operand of a remainder"""
        e, a, b = t
        if self.nosum(e) or (self.plain(e) and b < 2 ** 29):
            return t
        if a >= -IMAX // 3 and b <= IMAX // 3 and self.r.random() < 0.5:
            return (B("*", e, N(3)), 3 * a, 3 * b)
        k = 3
        return (B("/", e, N(k)), tdiv(a, k), tdiv(b, k))

    # ---- names and scopes
    def fresh(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def add(self, v):
        self.scopes[-1].append(v)
        self.posn[v.name] = v.pos
        return v

    def vars(self, pred):
        return [v for s in self.scopes for v in s if pred(v)]

    # ---- intervals
    def const(self, lo=None, hi=None):
        r = self.r
        if lo is None:
            k = r.random()
            if k < 0.55:
                return r.randint(-10, 20)
            v = r.choice(SPECIAL)
            if r.random() < 0.3:
                v += r.choice([-1, 1])
            if r.random() < 0.3:
                v = -v
            return max(-IMAX, min(IMAX, v))
        c = [x for x in SPECIAL + [-x for x in SPECIAL] if lo <= x <= hi]
        if c and r.random() < 0.5:
            return r.choice(c)
        return r.randint(lo, hi)

    def fit(self, t, lo, hi):
        e, a, b = t
        if lo <= a and b <= hi:
            return t
        w = hi - lo + 1
        if w == 1:
            return (N(lo), lo, lo)
        r = self.r
        if a >= 0 and lo >= 0:
            e2 = B("%", self.modop(t)[0], N(w))
            return (e2 if lo == 0 else B("+", e2, N(lo)), lo, hi)
        if lo <= 0 <= hi and min(-lo, hi) >= 1:
            k = min(-lo, hi) + 1
            if r.random() < 0.25:
                q = min(max(tdiv(max(abs(a), abs(b)), k - 1) + 1, 3), IMAX)
                return (B("/", e, N(q)), tdiv(a, q), tdiv(b, q))
            return (B("%", self.modop(t)[0], N(k)), -(k - 1), k - 1)
        if w > 2 ** 29 or w < 3:
            c = self.const(lo, hi) if w > 2 else r.choice([lo, hi])
            if w < 3:
                return (B("+", B(r.choice("<>"), e, N(max(-IMAX, min(IMAX, r.randint(a, b))))), N(lo)) if lo else
                        B(r.choice("<>"), e, N(max(-IMAX, min(IMAX, r.randint(a, b))))), lo, lo + 1)
            return (N(c), c, c)
        if lo == 0 and r.random() < 0.3:
            # a square, or a clamp of one comparison times a value
            k = 1
            while (k + 1) * (k + 1) <= hi and k < 46340:
                k += 1
            m = self.modop(t)
            x = (B("%", m[0], N(k + 1)), -k, k)
            if self.cheap(x[0]):
                return (B("*", x[0], x[0]), 0, k * k)
        h = (w - 1) // 2
        mid = lo + h
        e2 = B("%", self.modop(t)[0], N(h + 1))
        return (B("+", e2, N(mid)) if mid >= 0 else B("-", e2, N(-mid)), mid - h, mid + h)

    def cheap(self, e):
        """no calls, small"""
        return not any(x in json_tags(e) for x in ("C", "B", "U", "IX", "AND", "OR", "COND")) and size(e) < 8

    def shrink(self, t):
        k = self.r.choice([2, 3, 5, 7, 8, 10, 16, 31, 64, 100, 256, 1000, 1024, 10007, 32768])
        return self.fit(t, -(k - 1), k - 1)

    def arith(self, op, x, y):
        """x op y with overflow excluded by reducing operands"""
        for _ in range(4):
            (ea, al, ah), (eb, bl, bh) = x, y
            if op == "+":
                lo, hi = al + bl, ah + bh
            elif op == "-":
                lo, hi = al - bh, ah - bl
            elif op == "*":
                c = [al * bl, al * bh, ah * bl, ah * bh]
                lo, hi = min(c), max(c)
            elif op in "/%":
                if bl <= 0 <= bh:
                    if self.r.random() < 0.7 or bl < -IMAX // 2 or bh > IMAX // 2:
                        k = self.const(1, 50) if self.r.random() < 0.6 else max(1, abs(self.const()))
                        if self.r.random() < 0.25:
                            k = -k
                        y = (N(k), k, k)
                    else:
                        y = self.fit(y, 1, self.r.choice([2, 3, 4, 7, 9, 100]))
                    continue
                bs = [bl, bh]
                if op == "%":
                    x = self.modop(x)
                    ea, al, ah = x
                m = max(abs(bl), abs(bh)) - 1
                if op == "/":
                    c = [tdiv(p, q) for p in (al, ah) for q in bs]
                    lo, hi = min(c + [0] if al <= 0 <= ah else c), max(c + [0] if al <= 0 <= ah else c)
                    if IMIN in (al,) and -1 in bs:
                        x = self.shrink(x)
                        continue
                else:
                    lo = 0 if al >= 0 else max(al, -m)
                    hi = 0 if ah <= 0 else min(ah, m)
            if lo < -IMAX or hi > IMAX:
                if op == "*":
                    if self.r.random() < 0.5:
                        x = self.shrink(x)
                    else:
                        y = self.shrink(y)
                else:
                    x, y = self.shrink(x), self.shrink(y)
                continue
            return (B(op, x[0], y[0]), lo, hi)
        x, y = self.fit(x, -100, 100), self.fit(y, 1, 100)
        return (B("+", x[0], y[0]), x[1] + y[1], x[2] + y[2])

    def toplain(self, t, lo, hi):
        """t as a plain value of [0, hi]"""
        for _ in range(3):
            if self.plain(t[0]):
                return self.fit(t, lo, hi)
            if self.r.random() < 0.5:
                t = self.iexpr(self.r.choice([0, 1, 1, 2]))
            else:
                x, y = self.leaf(), self.leaf()
                t = self.arith(self.r.choice("++*"), x, y)
                t = t if self.plain(t[0]) else (self.cond(1), 0, 1)
        return self.fit((self.cond(1), 0, 1), lo, hi)

    def into(self, t, lo, hi, pos):
        return self.toplain(t, lo, hi) if pos else self.fit(t, lo, hi)

    # ---- expressions
    def index(self, d, depth=1):
        c = self.vars(lambda v: v.ty == "i" and not v.dims and 0 <= v.lo and v.hi < d)
        r = self.r
        if c and r.random() < 0.7:
            v = r.choice(c)
            if v.hi + 1 < d and r.random() < 0.15:
                return B("+", V(v.name), N(1))
            return V(v.name)
        if r.random() < 0.4 or self.ixd > 1:
            return N(r.randrange(d))
        self.ixd += 1
        e = self.fit(self.iexpr(depth), 0, d - 1)[0]
        self.ixd -= 1
        return e

    def elem(self, v):
        return IX(v.name, [self.index(d) for d in v.shape()])

    def leaf(self):
        r = self.r
        k = r.random()
        sc = self.vars(lambda v: v.ty == "i" and not v.dims)
        ar = self.vars(lambda v: v.ty == "i" and v.dims)
        if k < 0.55 and sc:
            # favour recent ones
            v = sc[-1 - min(int(r.expovariate(0.35)), len(sc) - 1)] if r.random() < 0.6 else r.choice(sc)
            return (V(v.name), v.lo, v.hi)
        if k < 0.72 and ar:
            v = r.choice(ar)
            return (self.elem(v), v.lo, v.hi)
        c = self.const()
        return (N(c), c, c)

    def call(self, depth):
        fs = [f for f in self.fns if f.cost * self.cost <= self.maxcost and f.ret == "i" and
              all(not p.dims or self.arrs(p) for p in f.params)]
        if not fs:
            return None
        f = self.r.choice(fs)
        return (C(f.name, self.args(f, depth)), f.lo, f.hi)

    def arrs(self, p):
        out = []
        for v in self.vars(lambda v: v.ty == p.ty and v.dims):
            if v.ro:
                continue
            dims = v.shape()
            if p.write and v.param and not v.write:
                continue
            if len(dims) == len(p.dims) and dims[1:] == p.dims[1:] and dims[0] >= p.hidden and v.lo >= p.lo and v.hi <= p.hi \
                    and (not p.write or (v.lo == p.lo and v.hi == p.hi)) and (p.pos == v.pos or (v.pos and not p.write)):
                out.append(v)
        return out

    def args(self, f, depth):
        a = []
        for p in f.params:
            if p.dims:
                a.append(V(self.r.choice(self.arrs(p)).name))
            elif p.ty == "f":
                a.append(self.fexpr(1)[0])
            else:
                a.append(self.into(self.iexpr(max(0, depth - 1)), p.lo, p.hi, p.pos)[0])
        return a

    def iexpr(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.12:
            return self.leaf()
        k = r.random()
        if k < 0.22:
            return self.arith("+", self.iexpr(d - 1), self.iexpr(d - 1))
        if k < 0.38:
            return self.arith("-", self.iexpr(d - 1), self.iexpr(d - 1))
        if k < 0.54:
            return self.arith("*", self.iexpr(d - 1), self.iexpr(d - 1))
        if k < 0.64:
            return self.arith("/", self.iexpr(d - 1), self.iexpr(d - 1))
        if k < 0.74:
            return self.arith("%", self.iexpr(d - 1), self.iexpr(d - 1))
        if k < 0.78:
            e, a, b = self.iexpr(d - 1)
            if a > IMIN:
                return (U("-", e), -b, -a)
            return (e, a, b)
        if k < 0.83:
            return (self.cond(d - 1), 0, 1)
        if k < 0.86:
            e, a, b = self.iexpr(d - 1)
            return (U("!", e), 0, 1)
        if k < 0.93 and self.calls and not self.nofn:
            t = self.call(d)
            if t:
                return t
        if r.random() < self.ext:
            k = r.random()
            if k < 0.35:
                c, x, y = self.cond(d - 1), self.iexpr(d - 1), self.iexpr(d - 1)
                return (COND(c, x[0], y[0]), min(x[1], y[1]), max(x[2], y[2]))
            if k < 0.75:
                x, y = self.iexpr(d - 1), self.iexpr(d - 1)
                op = r.choice("&|^")
                if x[1] >= 0 and y[1] >= 0:
                    m = (1 << max(x[2].bit_length(), y[2].bit_length())) - 1
                    return (B(op, x[0], y[0]), 0, m)
                m = max(x[2].bit_length(), y[2].bit_length(), (-x[1]).bit_length(), (-y[1]).bit_length())
                if m <= 30:
                    return (B(op, x[0], y[0]), -(1 << m), (1 << m) - 1)
                return x
            if k < 0.85:
                x = self.iexpr(d - 1)
                s = r.choice([0, 1, 2, 3, 5, 8, 16, 30, 31])
                return (B(">>", x[0], N(s)), x[1] >> s, x[2] >> s)
            if k < 0.95:
                x = self.fit(self.iexpr(d - 1), 0, r.choice([1, 7, 255, 1000]))
                s = r.choice([0, 1, 2, 3, 5, 8, 16, 20])
                return (B("<<", x[0], N(s)), x[1] << s, x[2] << s)
            x = self.iexpr(d - 1)
            return (U("~", x[0]), -1 - x[2], -1 - x[1]) if x[1] >= -IMAX else x
        return self.leaf()

    def cond(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.6:
            op = r.choice(["<", ">", "<=", ">=", "==", "!="])
            x, y = self.iexpr(d - 1), self.iexpr(d - 1)
            if r.random() < 0.5:
                # compare with a constant near the operand's range
                lo, hi = max(x[1], -IMAX), min(x[2], IMAX)
                c = r.choice([lo, hi, (lo + hi) // 2, r.randint(lo, hi)])
                y = (N(c), c, c)
            return B(op, x[0], y[0])
        if k < 0.75:
            return AND(self.cond(d - 1), self.cond(d - 1))
        if k < 0.9:
            return OR(self.cond(d - 1), self.cond(d - 1))
        if k < 0.95:
            return U("!", self.cond(d - 1))
        return self.iexpr(d)[0]

    # floats: (expr, max |value|, fraction bits)
    def fexpr(self, d):
        r = self.r
        k = r.random()
        vs = self.vars(lambda v: v.ty == "f" and not v.dims)
        av = self.vars(lambda v: v.ty == "f" and v.dims)
        if d <= 0 or k < 0.2:
            j = r.random()
            if vs and j < 0.6:
                v = r.choice(vs)
                return (V(v.name), v.hi, v.lo)
            if av and j < 0.75:
                v = r.choice(av)
                return (self.elem(v), v.hi, v.lo)
            if j < 0.85:
                t = self.fit(self.iexpr(0), -100, 100)
                if t[0][0] not in ("n",):
                    return (B("+", t[0], X(1, -1)), 101, 1)
            m, e = r.choice([(1, 0), (1, -1), (3, -1), (5, -2), (7, 0), (-3, -1), (10, 0), (1, 1), (25, -2)])
            return (X(m, e), abs(m) * (2 ** e if e > 0 else 1) + 1, max(0, -e))
        x, y = self.fexpr(d - 1), self.fexpr(d - 1)
        if k < 0.6:
            hi, q = x[1] + y[1], max(x[2], y[2])
            if hi * 2 ** q < 2 ** 21:
                return (B(r.choice("+-"), x[0], y[0]), hi, q)
        elif k < 0.9:
            hi, q = x[1] * y[1], x[2] + y[2]
            if hi * 2 ** q < 2 ** 21:
                return (B("*", x[0], y[0]), hi, q)
        else:
            if x[1] * 2 ** (x[2] + 2) < 2 ** 20:
                return (B("/", x[0], X(1, r.choice([1, 2]))), x[1], x[2] + 2)
        return x

    def fcond(self):
        return B(self.r.choice(["<", ">", "<=", ">=", "==", "!="]), self.fexpr(1)[0], self.fexpr(1)[0])

    # ------------------------------------------------------------ statements
    def blk(self, fn):
        self.scopes.append([])
        body = fn()
        self.scopes.pop()
        return BL(body)

    def newint(self, init=True):
        """declare a local with a fresh interval; returns (stmt, var)"""
        r = self.r
        t = self.iexpr(r.choice([1, 1, 2, 2, 3]))
        lo, hi = max(t[1], -IMAX), min(t[2], IMAX)
        pos = False
        k = r.random()
        if k < 0.5:
            b = r.choice([1, 7, 10, 100, 255, 1000, 10000, 46340])
            t = self.fit(t, -b, b)
            lo, hi = -b, b
        elif k < 0.7:
            b = r.choice([1, 7, 9, 63, 99, 1023, 65535])
            pos = r.random() < 0.7
            t = self.into(t, 0, b, pos)
            lo, hi = 0, b
        else:
            t = self.fit(t, lo, hi)
        name = self.fresh("x")
        if self.r.random() < 0.06 and self.scopes and len(self.scopes) > 1:
            outer = [v for sc in self.scopes[:-1] for v in sc if not v.dims and all(u.name != v.name for u in self.scopes[-1])]
            outer = [v for v in outer if not mentions(t[0], v.name) and v.pos == pos]
            if outer:
                name = r.choice(outer).name
                # shadowing: the outer variable becomes invisible here
                st = D("i", name, [], ["e", t[0]])
                self.hide(name)
                return st, self.add(Var(name, "i", (), lo, hi, pos=pos))
        st = D("i", name, [], ["e", t[0]])
        return st, self.add(Var(name, "i", (), lo, hi, pos=pos))

    def hide(self, name):
        """remove outer bindings of a shadowed name until the scope closes"""
        sc = self.scopes
        for i in range(len(sc)):
            kept = [v for v in sc[i] if v.name != name]
            if len(kept) != len(sc[i]):
                sc[i] = kept

    def target(self):
        """an assignable int lvalue: (name, idx, lo, hi)"""
        r = self.r
        sc = self.vars(lambda v: v.ty == "i" and not v.dims and not v.ro)
        ar = self.vars(lambda v: v.ty == "i" and v.dims and not v.ro and (not v.param or v.write))
        if ar and (not sc or r.random() < 0.35):
            v = r.choice(ar)
            nf, self.nofn = self.nofn, True
            e = self.elem(v)
            self.nofn = nf
            return v.name, e[2], v.lo, v.hi, v.pos
        if sc:
            v = r.choice(sc[-6:] if r.random() < 0.6 else sc)
            return v.name, [], v.lo, v.hi, v.pos
        return None

    def assign(self, depth=None):
        r = self.r
        t = self.target()
        if not t:
            return self.newint()[0]
        name, idx, lo, hi, pos = t
        nf = self.nofn
        if idx:
            self.nofn = True            # the order of lvalue and right side is not specified
        d = depth if depth is not None else r.choice([1, 2, 2, 3])
        cur = (IX(name, idx) if idx else V(name), lo, hi)
        k = r.random()
        if k < 0.35:
            e = self.arith(r.choice(["+", "+", "-", "*"]), cur, self.iexpr(d - 1))
        else:
            e = self.iexpr(d)
        e = self.into(e, lo, hi, pos)
        self.nofn = nf
        return ASG(name, idx, e[0])

    def out(self):
        r = self.r
        t = self.iexpr(r.choice([0, 1, 2]))
        return [E(C("putint", [t[0]])), E(C("putch", [N(r.choice([32, 10]))]))]

    def stmts(self, n, depth):
        out = []
        for _ in range(n):
            out.extend(self.stmt(depth))
        return out

    def stmt(self, depth):
        r = self.r
        k = r.random()
        if k < 0.22:
            return [self.newint()[0]]
        if k < 0.5:
            return [self.assign()]
        if k < 0.66 and depth > 0:
            return [self.ifstmt(depth - 1)]
        if k < 0.80 and depth > 0 and self.cost * 2 <= self.maxcost:
            return self.loop(depth - 1)
        if k < 0.86 and self.cost <= 20:
            return self.out()
        if k < 0.90 and depth > 0:
            return [self.blk(lambda: self.stmts(r.randint(1, 3), depth - 1))]
        if k < 0.94 and self.loop_depth == 0:
            return self.array_decl()
        if k < 0.97 and r.random() < self.floats * 3:
            return self.float_stmt()
        v = self.voidcall()
        return v if v else [self.assign()]

    def voidcall(self):
        fs = [f for f in self.fns if f.ret == "v" and f.cost * self.cost <= self.maxcost and
              all(not p.dims or self.arrs(p) for p in f.params)]
        if not fs or self.nofn or not self.calls:
            return None
        f = self.r.choice(fs)
        return [E(C(f.name, self.args(f, 1)))]

    def ifstmt(self, depth):
        r = self.r
        c = self.cond(r.choice([1, 1, 2])) if r.random() > self.floats * 0.3 else self.fcond()
        a = self.blk(lambda: self.stmts(r.randint(1, 2), depth))
        k = r.random()
        if k < 0.5:
            b = self.blk(lambda: self.stmts(r.randint(1, 2), depth))
            return IF(c, a, b)
        if k < 0.6 and depth > 0:
            return IF(c, a, self.ifstmt(depth - 1))
        return IF(c, a)

    def trip(self, lim=None):
        r = self.r
        m = max(2, self.maxcost // self.cost)
        if lim:
            m = min(m, lim)
        return r.randint(1, min(m, r.choice([3, 5, 8, 12, 17, 20, 33, 70])))

    def loop(self, depth, body=None):
        """a counted loop in one of several shapes"""
        r = self.r
        n = self.trip()
        i = self.fresh("i")
        out = []
        step = r.choice([1, 1, 1, 1, 2, 3])
        down = r.random() < 0.2
        start = 0 if r.random() < 0.7 else r.randint(-3, 5)
        # limit: constant, or an expression no larger than it
        lim = N(start + n)
        if r.random() < 0.4:
            t = self.fit(self.iexpr(1), 0, n) if r.random() < 0.5 else None
            if t:
                nm = self.fresh("n")
                out.append(D("i", nm, [], ["e", t[0] if start == 0 else B("+", t[0], N(start))]))
                self.add(Var(nm, "i", (), start, start + n, ro=True, pos=start >= 0 and self.plain(t[0])))
                lim = V(nm)
        lo, hi = (start, start + n + step - 1)
        self.loop_depth += 1
        oc = self.cost
        self.cost *= max(1, (n + step - 1) // step)
        style = r.random()
        iv = Var(i, "i", (), start, start + n - 1, ro=True, pos=start >= 0 and not down)
        self.posn[i] = iv.pos

        def mk():
            self.scopes[-1].append(iv)
            b = body(iv) if body else self.stmts(r.randint(1, 3), depth)
            return b
        res = []
        if down:
            # while (i > start) { i = i - step; body }
            res.append(D("i", i, [], ["e", lim]))
            b = self.blk(mk)
            b[1].insert(0, ASG(i, [], B("-", V(i), N(1))))
            c = B(">", V(i), N(start))
            res.append(WH(c, b))
        else:
            op = r.choice(["<", "<", "<", "<="]) if step == 1 else "<"
            c = B("<", V(i), lim)
            if op == "<=":
                c = B("<=", V(i), B("-", lim, N(1)) if lim[0] != "n" else N(lim[1] - 1))
            if r.random() < 0.15:
                c = B(">", lim, V(i))
            elif step == 1 and lim[0] == "n" and r.random() < 0.1:
                c = B("!=", V(i), lim)
            inc = ASG(i, [], B("+", V(i), N(step)))
            if r.random() < self.ext:
                inc = ASG(i, [], N(step), "+")
            b = self.blk(mk)
            brk = r.random()
            if brk < 0.18 and not body:
                b[1].insert(self.leave_at(b), self.leave_if(iv, [BR]))
            elif brk < 0.3 and not body:
                if style < self.ext * 0.5:
                    b[1].insert(self.leave_at(b), self.leave_if(iv, [CO]))
                else:
                    b[1].insert(self.leave_at(b), self.leave_if(iv, [inc, CO]))
            if style < self.ext * 0.5:
                if r.random() < 0.5:
                    res.append(D("i", i, [], ["e", N(start)]))
                    res.append(FOR(ASG(i, [], N(start)), c, inc, b))
                else:
                    res.append(FOR(D("i", i, [], ["e", N(start)]), c, inc, b))
                    iv = None
            elif style < self.ext * 0.7 and lim[0] == "n":
                res.append(D("i", i, [], ["e", N(start)]))
                b[1].append(inc)
                res.append(DO(b, c))
            else:
                res.append(D("i", i, [], ["e", N(start)]))
                b[1].append(inc)
                res.append(WH(c, b))
        self.cost = oc
        self.loop_depth -= 1
        if iv is not None:
            self.add(Var(i, "i", (), min(start, lo), hi, ro=True, pos=iv.pos))
        return out + res

    def leave_at(self, b):
        return self.r.choice([0, 0, self.r.randint(0, len(b[1])), len(b[1])])

    def leave_if(self, iv, what):
        """a conditional break or continue, alone, in an else branch, or two ifs deep"""
        k = self.r.random()
        c = self.outer_cond(iv)
        if k < 0.65:
            return IF(c, BL(what) if len(what) > 1 or k < 0.4 else what[0])
        if k < 0.8:
            return IF(c, BL([]), BL(what))
        return IF(c, BL([IF(self.outer_cond(iv), BL(what))]))

    def outer_cond(self, iv):
        r = self.r
        self.scopes.append([iv])
        nf, self.nofn = self.nofn, True
        if r.random() < 0.5:
            c = B(r.choice(["==", ">", ">=", "!=", "<"]), V(iv.name), N(r.randint(iv.lo, iv.hi)))
        else:
            c = self.cond(1)
        self.nofn = nf
        self.scopes.pop()
        return c

    def array_decl(self, dims=None, glob=False):
        r = self.r
        if dims is None:
            k = r.random()
            dims = [r.choice([2, 3, 4, 5, 8, 10, 16, 20])] if k < 0.6 else \
                [r.choice([2, 3, 4, 5]), r.choice([2, 3, 4, 7])] if k < 0.9 else [2, r.choice([2, 3]), r.choice([2, 4])]
        b = r.choice([1, 9, 100, 255, 1000, 10000, 1000000])
        lo = -b if r.random() < 0.6 else 0
        name = self.fresh("g" if glob else "a")
        pos = lo == 0

        def leafv():
            return ["e", N(self.const(lo, b))] if glob or r.random() < 0.5 else ["e", self.into(self.iexpr(0), lo, b, pos)[0]]

        def fill(ds):
            # the brace shapes of the language: full braces, rows written flat, a brace after
            # flat elements (it opens the largest sub-array aligned there), empty braces
            items = []
            if len(ds) == 1:
                for _ in range(r.randint(0 if r.random() < 0.3 or not glob else 1, ds[0])):
                    items.append(leafv())
                return L(items)
            total = 1
            for q in ds:
                total *= q
            pos, stop = 0, r.choice([total, total, r.randint(0, total)])
            flat = r.random() < 0.25
            while pos < stop:
                k = 1
                while True:
                    sz = 1
                    for q in ds[k:]:
                        sz *= q
                    if pos % sz == 0:
                        break
                    k += 1
                if sz > 1 and r.random() < (0.5 if flat else 0.9):
                    items.append(fill(ds[k:]) if r.random() < 0.9 else L([]))
                    pos += sz
                else:
                    for _ in range(sz if sz > 1 and not flat else r.choice([1, 1, 2, ds[-1]])):
                        if pos < stop:
                            items.append(leafv())
                            pos += 1
            return L(items)
        nf, self.nofn = self.nofn, True
        init = fill(dims)
        self.nofn = nf
        const = glob and r.random() < 0.3
        if glob and not const and r.random() < 0.3:
            init = ["none"]
        st = D("i", name, dims, init, const)
        v = Var(name, "i", dims, lo, b, ro=const, glob=glob, pos=pos)
        self.add(v)
        return [st]

    def float_stmt(self):
        r = self.r
        k = r.random()
        vs = self.vars(lambda v: v.ty == "f" and not v.dims and not v.ro)
        if k < 0.45 or not vs:
            t = self.fexpr(r.choice([1, 2]))
            name = self.fresh("f")
            st = D("f", name, [], ["e", t[0]])
            self.add(Var(name, "f", (), max(0, t[2]), t[1]))
            return [st]
        if k < 0.75:
            v = r.choice(vs)
            t = self.fexpr(2)
            if t[1] <= v.hi and t[2] <= v.lo:
                return [ASG(v.name, [], t[0])]
            return [E(C("putint", [B("*", t[0], X(2 ** min(t[2], 6), 0))])), E(C("putch", [N(32)]))] if t[1] * 2 ** t[2] < 2 ** 23 else []
        if k < 0.9:
            t = self.fexpr(2)
            return [E(C("putfloat", [t[0]])), E(C("putch", [N(32)]))]
        t = self.fexpr(1)
        nm = self.fresh("x")
        st = D("i", nm, [], ["e", t[0]])
        self.add(Var(nm, "i", (), -t[1] - 1, t[1] + 1))
        return [st]

    # ------------------------------------------------------------ functions
    def function(self, nparams=None, ret=None, size=None, arrays=True):
        r = self.r
        f = Fn()
        f.name = self.fresh("fn")
        f.ret = ret or r.choice(["i", "i", "i", "v"])
        np = nparams if nparams is not None else r.choice([0, 1, 2, 2, 3, 4, 5, 9])
        ps = []
        for _ in range(np):
            if arrays and r.random() < 0.22:
                nd = r.choice([1, 1, 2])
                shp = [r.choice([2, 3, 4, 5])] + ([r.choice([2, 3, 4])] if nd == 2 else [])
                b = r.choice([9, 100, 1000])
                lo = r.choice([-b, 0])
                ps.append(Var(self.fresh("p"), "i", [0] + shp[1:], lo, b, param=True, hidden=shp[0], write=r.random() < 0.6, pos=lo == 0))
            elif r.random() < self.floats * 0.6:
                ps.append(Var(self.fresh("p"), "f", (), 8, 2000, param=True))
            else:
                b = r.choice([5, 10, 100, 1000, 30000, 1000000, IMAX])
                lo = r.choice([-b, 0])
                ps.append(Var(self.fresh("p"), "i", (), lo, b, param=True, pos=lo == 0))
        return self.build(f, ps, size)

    def build(self, f, ps, size=None, bodyf=None):
        r = self.r
        saved, self.scopes = self.scopes, [self.scopes[0], list(ps)]
        for p in ps:
            self.posn[p.name] = p.pos
        oc, self.cost = self.cost, 1
        self.maxcost = 60
        body = bodyf() if bodyf else self.stmts(size or r.randint(1, 5), 2)
        f.params = ps
        f.lo, f.hi = 0, 0
        f.pos = False
        if f.ret == "i":
            b = r.choice([1, 10, 100, 1000, 10000, IMAX])
            t = self.fit(self.iexpr(2), -b, b) if b < IMAX else self.fit(self.iexpr(2), -IMAX, IMAX)
            body.append(RE(t[0]))
            f.lo, f.hi = t[1], t[2]
            f.pos = self.posn[f.name] = self.plain(t[0])
        f.cost = 10
        self.scopes, self.cost = saved, oc
        self.maxcost = 300
        self.funcs[f.name] = {"ret": f.ret, "params": [[p.name, p.ty, p.dims] for p in ps], "body": body}
        self.order.append(f.name)
        self.fns.append(f)
        return f


def program(seed, ext=0.0, floats=0.15, units=None, idioms=None, rows=None):
    """one program: globals, helper functions, units called from main on rows of input"""
    r = random.Random(seed)
    g = Gen(r, ext=ext, floats=floats)
    g.scopes = [[]]
    for _ in range(r.randint(0, 3)):
        if r.random() < 0.5:
            g.globals.extend(g.array_decl(glob=True))
        else:
            b = r.choice([1, 100, 10000])
            nm = g.fresh("g")
            c = r.random() < 0.25
            v = r.randint(-b, b)
            g.globals.append(D("i", nm, [], ["e", N(v)] if c or r.random() < 0.7 else ["none"], c))
            g.add(Var(nm, "i", (), -b, b, ro=c, glob=True))
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        g.function()
    ulist = []
    for _ in range(units or r.choice([1, 1, 2])):
        g.maxcost = 200
        if idioms and r.random() < idioms[1]:
            f = idioms[0](g)
        else:
            f = g.function(nparams=r.choice([1, 2, 3, 4]), ret="i", size=r.randint(3, 8), arrays=False)
        ulist.append(f)
    body = []
    inp = []
    nrows = rows or r.choice([1, 2, 3])
    opaque = r.random() < 0.75

    def val(p):
        if r.random() < 0.3:
            return r.choice([p.lo, p.hi, max(p.lo, min(0, p.hi)), max(p.lo, min(1, p.hi)), max(p.lo, min(-1, p.hi))])
        if r.random() < 0.25:
            k = r.choice([-1, 1]) * 2 ** r.randint(0, 31) + r.choice([-1, 0, 1])
            if p.lo <= k <= p.hi:
                return k
        if r.random() < 0.5:
            return r.randint(max(p.lo, -20), min(p.hi, 20)) if max(p.lo, -20) <= min(p.hi, 20) else r.randint(p.lo, p.hi)
        return r.randint(p.lo, p.hi)
    scal = [[p for p in f.params if not p.dims] for f in ulist]

    def callunit(f, args):
        arr = []
        it = iter(args)
        for p in f.params:
            arr.append(V(g.mainarr[p.name]) if p.dims else next(it))
        return C(f.name, arr)
    g.mainarr = {}
    pre = []
    for f in ulist:
        for p in f.params:
            if p.dims:
                nm = g.fresh("m")
                shp = [p.hidden] + p.dims[1:]
                size = 1
                for d in shp:
                    size *= d
                vals = [r.randint(p.lo, p.hi) for _ in range(size)]
                items = [["e", N(v)] for v in vals]
                if len(shp) == 1:
                    items = items[:r.randint(0, size)] if p.lo <= 0 <= p.hi else items
                pre.append(D(p.ty, nm, shp, L(items)))
                g.mainarr[p.name] = nm
    inner = []
    if opaque:
        inp.append(nrows)
        for f, ps in zip(ulist, scal):
            args = []
            for p in ps:
                nm = g.fresh("t")
                inner.append(D("i", nm, [], ["e", C("getint", [])]))
                args.append(B("*", V(nm), X(1, -1)) if p.ty == "f" else V(nm))
            inner.append(E(C("putint", [callunit(f, args)])))
            inner.append(E(C("putch", [N(10)])))
        for _ in range(nrows):
            for ps in scal:
                for p in ps:
                    inp.append(r.randint(-50, 50) if p.ty == "f" else val(p))
        body.append(D("i", "rows", [], ["e", C("getint", [])]))
        inner.append(ASG("rows", [], B("-", V("rows"), N(1))))
        body += pre
        body.append(WH(B(">", V("rows"), N(0)), BL(inner)))
    else:
        body += pre
        for _ in range(nrows):
            for f, ps in zip(ulist, scal):
                args = [X(r.randint(-50, 50), -1) if p.ty == "f" else (lambda k: N(k) if k > IMIN else B("-", N(-IMAX), N(1)))(val(p)) for p in ps]
                body.append(E(C("putint", [callunit(f, args)])))
                body.append(E(C("putch", [N(10)])))
    # final state of the globals
    for v in g.scopes[0]:
        if v.glob and v.ty == "i":
            if v.dims and len(v.dims) == 1 and not v.ro:
                body.append(E(C("putarray", [N(v.dims[0]), V(v.name)])))
            elif not v.dims:
                body.append(E(C("putint", [V(v.name)])))
                body.append(E(C("putch", [N(10)])))
    body.append(RE(N(r.choice([0, 0, 3, 255])) if r.random() < 0.6 else B("%", g.fit((V(g.scopes[0][0].name), g.scopes[0][0].lo, g.scopes[0][0].hi), 0, 200)[0], N(256)) if g.scopes[0] and not g.scopes[0][0].dims and g.scopes[0][0].ty == "i" else N(7)))
    g.funcs["main"] = {"ret": "i", "params": [], "body": body}
    g.order.append("main")
    return {"id": 0, "globals": g.globals, "funcs": g.funcs, "order": g.order, "input": inp, "maxSteps": 6000, "obs": []}


def idiom_programs(seed, per, ext=0, only=None, rows=3, without=()):
    """`per` programs for every idiom template"""
    from . import idioms, extidioms
    out = []
    for t in idioms.ALL + extidioms.EXT:
        if only and t.__name__ not in only or t.__name__ in without:
            continue
        for i in range(per):
            p = program(seed + i, ext=ext, units=1, idioms=(lambda g, t=t: idioms.make(g, t), 1.0), rows=rows)
            p["id"] = "%s_%d" % (t.__name__, i)
            p["maxSteps"] = 20000
            out.append(p)
    return out
