"""Random SPL programs (int, arrays, structures, functions, read/write) as source text together
with the abstract program specs/SysYMachine.tla runs.  Intervals keep most programs free of overflow;
whether a program is defined is decided by the specification."""
import random
from . import ast as A

IMAX, IMIN = 2 ** 31 - 1, -2 ** 31
WIDE = 9999


class X:
    """expression: text, precedence, syntax tree, interval, does it contain a call"""

    def __init__(s, t, prec, a, lo, hi, call=False):
        s.t, s.prec, s.a, s.lo, s.hi, s.call = t, prec, a, lo, hi, call


class Struct:
    def __init__(s, name, fields):
        s.name, s.fields = name, fields      # (field, type, dims)
        s.size = sum(cells(t) * prod(d) for _, t, d in fields)


def prod(d):
    r = 1
    for x in d:
        r *= x
    return r


def cells(t):
    return t.size if isinstance(t, Struct) else 1


class Var:
    def __init__(s, name, ty="i", dims=(), lo=-WIDE, hi=WIDE, ro=False, byref=False):
        s.name, s.ty, s.dims, s.lo, s.hi, s.ro, s.byref = name, ty, tuple(dims), lo, hi, ro, byref
        s.cells = cells(ty) * prod(dims)
        s.full = False      # every cell has a value


class Fn:
    def __init__(s, name, params):
        s.name, s.params, s.pure = name, params, True
        s.lo, s.hi = -WIDE, WIDE


def par(x, p):
    return "(%s)" % x.t if x.prec < p else x.t


def binary(op, x, y):
    p = A.PREC[op]
    # the right operand needs parentheses at equal precedence (left associative)
    t = "%s %s %s" % (par(x, p), op, par(y, p + 1))
    return t, p, (A.AND(x.a, y.a) if op == "&&" else A.OR(x.a, y.a) if op == "||" else A.B(op, x.a, y.a))


class Gen:
    def __init__(s, seed, size=1.0, ext=False):
        s.r = random.Random(seed)
        s.ext = ext
        # the three-address language has no global objects and no bit operations
        s.more = ext and s.r.random() < 0.6
        s.globs = []
        s.can = [False, False]      # break, continue
        s.n = 0
        s.structs, s.fns = [], []
        s.scope = []
        s.size = size
        s.wide = None
        s.inputs = []

    def fresh(s, p="v"):
        s.n += 1
        return "%s%d" % (p, s.n)

    # ------------------------------------------------------------ expressions
    def const(s, v=None):
        r = s.r
        if v is None:
            v = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 100, 255, 1000, 4095, 4096, 9999, r.randint(0, 50), r.randint(0, 9999)])
        if v < 0:
            return X("-%d" % -v, 11, A.U("-", A.N(-v)), v, v) if v != IMIN else X("-2147483647 - 1", 9, A.B("-", A.U("-", A.N(IMAX)), A.N(1)), v, v)
        t = "0x%x" % v if r.random() < 0.08 else "%d" % v
        return X(t, 20, A.N(v), v, v)

    def scalars(s):
        seen, out = set(), []
        for sc in reversed(s.scope):
            for v in sc:
                if v.name not in seen:
                    seen.add(v.name)
                    out.append(v)
        return out

    def ivars(s):
        return [v for v in s.scalars() if v.ty == "i" and not v.dims]

    def aggs(s, pred=lambda v: True):
        return [v for v in s.scalars() if (v.dims or v.ty != "i") and pred(v)]

    def index(s, d, depth):
        r = s.r
        if r.random() < 0.45:
            k = r.randrange(d)
            return X("%d" % k, 20, A.N(k), k, k)
        fit = [v for v in s.ivars() if v.lo >= 0 and v.hi < d]
        if fit and r.random() < 0.8:
            v = r.choice(fit)
            return X(v.name, 20, A.V(v.name), v.lo, v.hi)
        # x - x / d * d of something that is not negative
        pos = [v for v in s.ivars() if v.lo >= 0]
        if pos:
            v = r.choice(pos)
            n = v.name
            return X("%s - %s / %d * %d" % (n, n, d, d), 9, A.B("-", A.V(n), A.B("*", A.B("/", A.V(n), A.N(d)), A.N(d))), 0, d - 1)
        k = r.randrange(d)
        return X("%d" % k, 20, A.N(k), k, k)

    def path(s, v, stop=None, depth=1):
        """a random access inside the aggregate v down to an int (or to something of type `stop`); (text, path) or None"""
        t, p = v.name, []
        ty, dims = v.ty, list(v.dims)
        while True:
            if stop and (ty, tuple(dims)) == stop:
                return t, p
            if dims:
                d = dims.pop(0)
                e = s.index(d, depth)
                t += "[%s]" % e.t
                p.append([e.a, d, cells(ty) * prod(dims)])
            elif isinstance(ty, Struct):
                f, fty, fd = s.r.choice(ty.fields)
                off = 0
                for g, gt, gd in ty.fields:
                    if g == f:
                        break
                    off += cells(gt) * prod(gd)
                t += ".%s" % f
                p.append([A.N(off), 1000000, 1])
                ty, dims = fty, list(fd)
            else:
                return (t, p) if not stop else None

    def leaf(s):
        r = s.r
        k = r.random()
        if k < 0.3:
            return s.const()
        ag = s.aggs(lambda v: v.full)
        if ag and k < 0.55:
            v = r.choice(ag)
            t, p = s.path(v)
            return X(t, 20, ["px", v.name, p], -WIDE, WIDE)
        iv = [v for v in s.ivars() if v is not s.wide]
        if iv:
            v = r.choice(iv)
            return X(v.name, 20, A.V(v.name), v.lo, v.hi)
        return s.const()

    def expr(s, d, calls=True):
        r = s.r
        if d <= 0 or r.random() < 0.15:
            return s.leaf()
        k = r.random()
        if s.ext and r.random() < 0.15:
            x = s.extra(d, calls)
            if x:
                return x
        if k < 0.1 and calls and s.fns:
            c = s.call(d)
            if c:
                return c
        if k < 0.18:
            x = s.expr(d - 1, calls)
            if x.lo > IMIN and x.prec != 11:
                return X("-%s" % par(x, 11), 11, A.U("-", x.a), -x.hi, -x.lo, x.call)
            return x
        if k < 0.26:
            return s.cond(d - 1, calls)
        op = r.choice("+-*/+-*")
        x = s.expr(d - 1, calls)
        if op == "/":
            y = s.const(r.choice([1, 2, 3, 4, 5, 7, 8, 10, 16, 100, 1000, -1, -2, -3, 9])) if r.random() < 0.7 else s.leaf()
            if y.lo <= 0 <= y.hi:
                y = s.const(3)
            if y.prec == 11:
                y = X("(%s)" % y.t, 20, y.a, y.lo, y.hi)
            if x.lo == IMIN:
                return x
            t, p, a = binary("/", x, y)
            m = max(abs(x.lo), abs(x.hi))
            return X(t, p, a, -m if x.lo < 0 or y.lo < 0 else 0, m, x.call)
        y = s.expr(d - 1, calls and not x.call)
        lo, hi = {"+": (x.lo + y.lo, x.hi + y.hi), "-": (x.lo - y.hi, x.hi - y.lo),
                  "*": (min(x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi), max(x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi))}[op]
        if lo < IMIN or hi > IMAX:
            return x
        t, p, a = binary(op, x, y)
        return X(t, p, a, lo, hi, x.call or y.call)

    def extra(s, d, calls):
        """operators of the extended language"""
        r = s.r
        if not s.more or r.random() < 0.3:
            c = s.cond(d - 1, calls)
            x, y = s.expr(d - 1, False), s.expr(d - 1, False)
            return X("(%s ? %s : %s)" % (par(c, 1), par(x, 1), par(y, 1)), 20, A.COND(c.a, x.a, y.a), min(x.lo, y.lo), max(x.hi, y.hi), c.call)
        x = s.expr(d - 1, calls)
        op = r.choice("%%&|^~")
        if op == "~":
            return X("~%s" % par(x, 11), 11, A.U("~", x.a), -x.hi - 1, -x.lo - 1, x.call)
        c = r.choice([1, 2, 3, 5, 7, 8, 10, 15, 16, 63, 100, 255, 1000, 4095])
        y = s.const(c)
        if r.random() < 0.25:
            y = s.leaf()
        if op == "%":
            if y.lo <= 0 <= y.hi:
                y = s.const(c)
            if y.prec == 11:
                y = X("(%s)" % y.t, 20, y.a, y.lo, y.hi)
            t, p, a = binary("%", x, y)
            m = max(abs(y.lo), abs(y.hi)) - 1
            return X(t, p, a, -m if x.lo < 0 else 0, m, x.call)
        if r.random() < 0.5:
            x, y = y, x
        m = (1 << max(abs(x.lo), abs(x.hi), abs(y.lo), abs(y.hi)).bit_length()) - 1
        t, p, a = binary(op, x, y)
        neg = (x.lo < 0 or y.lo < 0) if op != "&" else x.lo < 0 and y.lo < 0
        return X(t, p, a, -m - 1 if neg else 0, m, x.call or y.call)

    def cond(s, d, calls=True):
        r = s.r
        k = r.random()
        if d > 0 and k < 0.25:
            x = s.cond(d - 1, calls)
            y = s.cond(d - 1, calls and not x.call)
            t, p, a = binary(r.choice(["&&", "||"]), x, y)
            return X(t, p, a, 0, 1, x.call or y.call)
        if d > 0 and k < 0.37:
            x = s.cond(d - 1, calls) if r.random() < 0.6 else s.leaf()
            return X("!%s" % par(x, 11), 11, A.U("!", x.a), 0, 1, x.call)
        if k < 0.45:
            x = s.expr(d - 1, calls)
            return X("%s" % x.t, x.prec, x.a, x.lo, x.hi, x.call)
        x = s.expr(d - 1, calls)
        y = s.expr(d - 2, False) if r.random() < 0.6 else s.const()
        t, p, a = binary(r.choice(["<", "<=", ">", ">=", "==", "!="]), x, y)
        return X(t, p, a, 0, 1, x.call)

    def call(s, d):
        r = s.r
        f = r.choice(s.fns)
        ts, as_ = [], []
        for p in f.params:
            if p.ty == "i" and not p.dims:
                x = s.expr(min(d - 1, 1), False)
                if x.lo < p.lo or x.hi > p.hi:
                    k = r.randint(max(p.lo, -50), min(p.hi, 50))
                    x = s.const(k)
                ts.append(x.t)
                as_.append(x.a)
            else:
                c = []
                for v in s.aggs(lambda v: v.full):
                    g = s.path(v, (p.ty, p.dims))
                    if g and p.ty != "i" and p.dims == ():
                        c.append((g, v))
                    elif g and p.byref:
                        c.append((g, v))
                if not c:
                    return None
                (t, q), v = r.choice(c)
                ts.append(t)
                as_.append(["ps", v.name, q, p.cells])
        return X("%s(%s)" % (f.name, ", ".join(ts)), 20, A.C(f.name, as_), f.lo, f.hi, True)

    # ------------------------------------------------------------ statements
    # a statement is (lines of text, list of abstract statements)
    def assign_to(s, lt, la, x):
        """store x to an int location of the standard range"""
        if x.lo >= -WIDE and x.hi <= WIDE:
            return ["%s = %s;" % (lt, x.t)], [la(x.a)]
        w = s.wide.name
        k = s.r.choice([10007 - 8, 997, 100, 8192])
        return (["%s = %s;" % (w, x.t), "%s = %s - %s / %d * %d;" % (lt, w, w, k, k)],
                [A.ASG(w, [], x.a), la(A.B("-", A.V(w), A.B("*", A.B("/", A.V(w), A.N(k)), A.N(k))))])

    def setter(s, calls=True):
        """an assignment expression: text, tree, the variable it changes, is its value in the standard range"""
        r = s.r
        iv = [v for v in s.ivars() if not v.ro and v is not s.wide]
        ag = s.aggs(lambda v: v.full)
        if ag and (r.random() < 0.4 or not iv):
            v = r.choice(ag)
            t, p = s.path(v)
            lv = ["ap", v.name, p]
        elif iv:
            v = r.choice(iv)
            t, lv = v.name, A.AD(v.name)
        else:
            return None
        k = r.random()
        if k < 0.5:
            pre, op = r.random() < 0.5, r.choice("+-")
            return ("%s%s" % (op * 2, t) if pre else "%s%s" % (t, op * 2)), A.SET(lv, A.N(1), ("pre" if pre else "post") + op), v.name, True
        # a call could change what is assigned to: whether that is read before or after the call is open
        x = s.expr(2, calls and lv[0] != "ap" and not t.startswith("g"))
        if x.lo < -WIDE or x.hi > WIDE:
            x = s.const(r.randint(0, 99))
        if k < 0.65:
            return "%s = %s" % (t, x.t), A.SET(lv, x.a), v.name, True
        if k < 0.85:
            op = r.choice("+-")
            return "%s %s= %s" % (t, op, x.t), A.SET(lv, x.a, op), v.name, False
        op = r.choice("*/")
        x = s.const(r.choice([1, 2, 3, 5, 7, 10, 16]) if op == "*" else r.choice([1, 2, 3, 8, 10, 100, 127]))
        return "%s %s= %s" % (t, op, x.t), A.SET(lv, x.a, op), v.name, op == "/"

    def setstmt(s):
        r = s.r
        c = s.setter()
        if not c:
            return s.output()
        t, a, name, small = c
        iv = [v for v in s.ivars() if not v.ro and v is not s.wide and v.name != name]
        k = r.random()
        n = r.choice([997, 100, 8192, 5000])
        if k < 0.15:
            return ["write((%s));" % t if r.random() < 0.5 else "write(%s);" % t], [A.E(A.C("write", [a]))]
        if k < 0.3 and iv and small:
            u = r.choice(iv)
            return ["%s = %s;" % (u.name, t)], [A.ASG(u.name, [], a)]
        if k < 0.45 and small:
            op, c = r.choice(["<", ">", "==", "!=", "<=", ">="]), r.randint(0, 60)
            b = s.block(r.randint(1, 2), 0)
            return ["if ((%s) %s %d)" % (t, op, c)] + b[0], [A.IF(A.B(op, a, A.N(c)), b[1][0])]
        ls, aa = ["%s;" % t], [A.E(a)]
        lt = t.replace("++", "").replace("--", "").split(" +=")[0].split(" -=")[0].split(" *=")[0].split(" /=")[0].split(" = ")[0]
        if not small:
            lv = a[2][0]
            if lv[0] in ("ad", "AD"):
                ls.append("%s -= %s / %d * %d;" % (lt, lt, n, n))
                aa.append(A.E(A.SET(lv, A.B("*", A.B("/", A.V(name), A.N(n)), A.N(n)), "-")))
            else:
                ls.append("%s = %s - %s / %d * %d;" % (lt, lt, lt, n, n))
                px = ["px"] + lv[1:]
                aa.append(["=p", lv[1:], A.B("-", px, A.B("*", A.B("/", px, A.N(n)), A.N(n)))])
        return ls, aa

    def assign(s):
        r = s.r
        if s.ext and r.random() < 0.35:
            return s.setstmt()
        ag = s.aggs(lambda v: v.full)
        if ag and r.random() < 0.4:
            v = r.choice(ag)
            t, p = s.path(v)
            return s.assign_to(t, lambda e: ["=p", [v.name, p], e], s.expr(3))
        iv = [v for v in s.ivars() if not v.ro and v is not s.wide]
        if not iv:
            return s.output()
        v = r.choice(iv)
        x = s.expr(3)
        if r.random() < 0.12 and len(iv) > 1 and x.lo >= -WIDE and x.hi <= WIDE:
            u = r.choice(iv)
            return ["%s = %s = %s;" % (u.name, v.name, x.t)], [A.ASG(v.name, [], x.a), A.ASG(u.name, [], A.V(v.name))]
        return s.assign_to(v.name, lambda e: A.ASG(v.name, [], e), x)

    def output(s):
        x = s.expr(2)
        s.dirty = True
        return ["write(%s);" % x.t], [A.E(A.C("write", [x.a]))]

    def copy(s):
        r = s.r
        src = [(v, v.ty) for v in s.aggs(lambda v: v.full) if isinstance(v.ty, Struct)]
        if not src:
            return s.assign()
        v, ty = r.choice(src)
        for _ in range(4):
            u = r.choice(src)[0]
            want = r.choice([ty] + [t for _, t, d in ty.fields if isinstance(t, Struct)])
            g, h = s.path(v, (want, ())), s.path(u, (want, ()))
            if g and h:
                return ["%s = %s;" % (h[0], g[0])], [["cpy", [u.name, h[1]], [v.name, g[1]], want.size]]
        return s.assign()

    def ifst(s, depth):
        r = s.r
        iv = [v for v in s.ivars() if not v.ro and v is not s.wide]
        pre, prea = [], []
        if iv and r.random() < 0.12:
            v = r.choice(iv)
            x = s.expr(2)
            if x.lo >= -WIDE and x.hi <= WIDE:
                k = r.randint(-5, 50)
                prea = [A.ASG(v.name, [], x.a)]
                op = r.choice(["<", ">", "==", "!="])
                ct, ca = "(%s = %s) %s %d" % (v.name, x.t, op, k) if k >= 0 else "(%s = %s) %s -%d" % (v.name, x.t, op, -k), A.B(op, A.V(v.name), A.N(k))
            else:
                prea = []
        if not prea:
            c = s.cond(2)
            ct, ca = c.t, c.a
        t, a = s.block(r.randint(1, 3), depth - 1)
        ls = ["if (%s)" % ct] + t
        aa = A.IF(ca, a[0])
        if r.random() < 0.5:
            t, b = s.block(r.randint(1, 2), depth - 1)
            ls += ["else"] + t
            aa = A.IF(ca, a[0], b[0])
        return pre + ls, prea + [aa]

    def loop(s, depth):
        r = s.r
        iv = [v for v in s.ivars() if not v.ro and v is not s.wide and v not in s.globs]
        if not iv:
            return s.assign()
        v = r.choice(iv)
        old = (v.lo, v.hi, v.ro)
        n = r.choice([1, 2, 3, 4, 5, 7]) if depth < 2 else r.choice([2, 3, 4, 6, 9])
        step = r.choice([1, 1, 1, 2])
        kind = r.random()
        v.ro = True
        if s.ext and r.random() < 0.6:
            can, s.can = s.can, [True, True]
            if kind < 0.7:
                v.lo, v.hi = 0, max(n - 1, 0)
                t, a = s.block(r.randint(1, 3), depth - 1)
                inc, ia = r.choice([("%s++", A.SET(A.AD(v.name), A.N(1), "post+")), ("++%s", A.SET(A.AD(v.name), A.N(1), "pre+")), ("%s += 1", A.SET(A.AD(v.name), A.N(1), "+")),
                                    ("%s = " + v.name + " + 1", A.SET(A.AD(v.name), A.B("+", A.V(v.name), A.N(1))))])
                ls = ["for (%s = 0; %s < %d; %s)" % (v.name, v.name, n, inc % v.name)] + t
                aa = [A.FOR(A.ASG(v.name, [], A.N(0)), A.B("<", A.V(v.name), A.N(n)), A.E(ia), a[0])]
            else:
                v.lo, v.hi = 1, n
                t, a = s.block(r.randint(1, 3), depth - 1)
                c, ca = r.choice([("--%s > 0", A.B(">", A.SET(A.AD(v.name), A.N(1), "pre-"), A.N(0))), ("%s-- > 1", A.B(">", A.SET(A.AD(v.name), A.N(1), "post-"), A.N(1))),
                                  ("(%s -= 1) > 0", A.B(">", A.SET(A.AD(v.name), A.N(1), "-"), A.N(0))), ("--%s", A.SET(A.AD(v.name), A.N(1), "pre-"))])
                ls = ["%s = %d;" % (v.name, n), "do"] + t + ["while (%s);" % (c % v.name)]
                aa = [A.ASG(v.name, [], A.N(n)), A.DO(a[0], ca)]
            s.can = can
            v.lo, v.hi, v.ro = old
            return ls, aa
        can, s.can = s.can, [s.ext, False]
        if kind < 0.6:
            bound = "%d" % n
            ba = A.N(n)
            lim = [u for u in s.ivars() if u.lo >= 0 and u.hi <= 12 and u is not v]
            if lim and r.random() < 0.4:
                u = r.choice(lim)
                wasro, u.ro = u.ro, True
                bound, ba, n = u.name, A.V(u.name), u.hi
            else:
                u = None
            v.lo, v.hi = 0, max(n - 1, 0)
            t, a = s.block(r.randint(1, 3), depth - 1, extra=(["%s = %s + %d;" % (v.name, v.name, step)], [A.ASG(v.name, [], A.B("+", A.V(v.name), A.N(step)))]))
            if u:
                u.ro = wasro
            op = r.choice(["<", "<", "!="]) if step == 1 else "<"
            if op == "!=" and u:
                op = "<"
            ls = ["%s = 0;" % v.name, "while (%s %s %s)" % (v.name, op, bound)] + t
            aa = [A.ASG(v.name, [], A.N(0)), A.WH(A.B(op, A.V(v.name), ba), a[0])]
        elif kind < 0.85:
            v.lo, v.hi = 1, n
            t, a = s.block(r.randint(1, 3), depth - 1, extra=(["%s = %s - 1;" % (v.name, v.name)], [A.ASG(v.name, [], A.B("-", A.V(v.name), A.N(1)))]))
            c = r.choice(["%s > 0" % v.name, v.name, "0 < %s" % v.name])
            ca = A.V(v.name) if c == v.name else A.B(">", A.V(v.name), A.N(0)) if c.startswith(v.name) else A.B("<", A.N(0), A.V(v.name))
            ls = ["%s = %d;" % (v.name, n), "while (%s)" % c] + t
            aa = [A.ASG(v.name, [], A.N(n)), A.WH(ca, a[0])]
        else:
            # while ((i = i - 1) >= 0)
            v.lo, v.hi = 0, n - 1
            t, a = s.block(r.randint(1, 3), depth - 1)
            ls = ["%s = %d;" % (v.name, n), "while ((%s = %s - 1) >= 0)" % (v.name, v.name)] + t
            dec = A.ASG(v.name, [], A.B("-", A.V(v.name), A.N(1)))
            aa = [A.ASG(v.name, [], A.N(n)), dec, A.WH(A.B(">=", A.V(v.name), A.N(0)), A.BL([a[0], dec]))]
        s.can = can
        v.lo, v.hi, v.ro = old
        return ls, aa

    def stmt(s, depth):
        if s.ext and s.can[0] and s.r.random() < 0.1:
            c = s.cond(1)
            w = "continue" if s.can[1] and s.r.random() < 0.5 else "break"
            return ["if (%s) %s;" % (c.t, w)], [A.IF(c.a, A.CO if w == "continue" else A.BR)]
        if s.ext and s.r.random() < 0.02:
            return [";"], []
        k = s.r.random()
        if depth > 0 and k < 0.17:
            return s.ifst(depth)
        if depth > 0 and k < 0.32:
            return s.loop(depth)
        if depth > 0 and k < 0.37:
            return s.block(s.r.randint(1, 3), depth - 1)
        if k < 0.44:
            return s.copy()
        if k < 0.62:
            return s.output()
        if k < 0.66 and s.fns:
            c = s.call(2)
            if c:
                return ["%s;" % c.t], [A.E(c.a)]
        if k < 0.69 and s.ret is not None and depth < s.top:
            x = s.retval()
            return ["return %s;" % x.t], [A.RE(x.a)]
        return s.assign()

    def retval(s):
        x = s.expr(2)
        return x if x.lo >= -WIDE and x.hi <= WIDE else s.const(s.r.randint(-5, 5))

    def decls(s, n):
        """local declarations: lines, abstract, and statements that give aggregates their values"""
        r = s.r
        ls, a, il, ia = [], [], [], []
        late = []      # aggregates have values after the initialising statements only
        for _ in range(n):
            k = r.random()
            name = s.fresh() if r.random() < 0.85 or not s.ivars() else r.choice([v for v in s.ivars()]).name
            if any(v.name == name for v in s.scope[-1] + late) or any(v.name == name and v.ro for sc in s.scope for v in sc) or name == (s.wide and s.wide.name):
                name = s.fresh()
            if k < 0.55:
                x = s.expr(2)
                if x.lo < -WIDE or x.hi > WIDE or name in x.t:
                    x = s.const(r.randint(-9, 99))
                ls.append("int %s = %s;" % (name, x.t))
                a.append(A.D("i", name, [], A.E(x.a)))
                s.scope[-1].append(Var(name))
                continue
            if k < 0.78 or not s.structs:
                ty, dims = "i", r.choice([(2,), (3,), (4,), (5,), (8,), (2, 3), (3, 2), (4, 4), (2, 2, 2)])
            else:
                ty, dims = r.choice(s.structs), r.choice([(), (), (2,), (3,)])
            if any(v.name == name for sc in s.scope for v in sc):
                name = s.fresh()     # it is not in scope yet for the initialisers that follow
            v = Var(name, ty, dims)
            if v.cells > 60:
                continue
            tn = "int" if ty == "i" else "struct " + ty.name
            ls.append("%s %s%s;" % (tn, name, "".join("[%d]" % d for d in dims)))
            a.append(A.D("i", name, [v.cells]))
            il_, ia_ = s.fill(v)
            il += il_
            ia += ia_
            v.full = True
            late.append(v)
        s.scope[-1] += late
        return ls, a, il, ia

    def fill(s, v):
        out, oa = [], []

        def go(t, p, ty, dims):
            if dims:
                for i in range(dims[0]):
                    go("%s[%d]" % (t, i), p + [[A.N(i), dims[0], cells(ty) * prod(dims[1:])]], ty, dims[1:])
            elif isinstance(ty, Struct):
                off = 0
                for f, ft, fd in ty.fields:
                    go("%s.%s" % (t, f), p + [[A.N(off), 1000000, 1]], ft, fd)
                    off += cells(ft) * prod(fd)
            else:
                k = s.r.randint(-20, 99)
                out.append("%s = %d;" % (t, k))
                oa.append(["=p", [v.name, p], A.N(k)])
        go(v.name, [], v.ty, list(v.dims))
        return out, oa

    def block(s, n, depth, extra=None):
        s.scope.append([])
        ls, a = [], []
        if s.r.random() < 0.3:
            d = s.decls(s.r.randint(1, 2))
            ls += d[0] + d[2]
            a += d[1] + d[3]
        # declarations first: the initialising statements of the aggregates follow all of them
        for _ in range(n):
            t, b = s.stmt(depth)
            ls += t
            a += b
        if extra:
            ls += extra[0]
            a += extra[1]
        s.scope.pop()
        return ["{"] + ["    " + l for l in ls] + ["}"], [A.BL(a)]

    def function(s, name, params, main=False):
        s.scope = [list(s.globs), list(params)]
        s.can = [False, False]
        s.ret = name
        s.dirty = False
        ls, a = [], []
        s.wide = None
        w = Var(s.fresh("w"), "i", (), IMIN, IMAX)
        ls.append("int %s = 0;" % w.name)
        a.append(A.D("i", w.name, [], A.E(A.N(0))))
        s.scope[-1].append(w)
        s.wide = w
        s.top = 3
        if main:
            for _ in range(s.r.randint(1, 3)):
                n = s.fresh("n")
                lim = s.r.choice([(0, 8), (-50, 50), (0, 3), (-WIDE, WIDE)])
                ls.append("int %s = read();" % n)
                a.append(A.D("i", n, [], A.E(A.C("read", []))))
                s.inputs.append(s.r.choice([lim[0], lim[1], s.r.randint(*lim), s.r.randint(*lim)]))
                s.scope[-1].append(Var(n, "i", (), lim[0], lim[1], ro=True))
        d = s.decls(s.r.randint(2, 4))
        ls += d[0] + d[2]
        a += d[1] + d[3]
        for _ in range(int(s.r.randint(3, 7) * s.size)):
            t, b = s.stmt(3)
            ls += t
            a += b
        if main:
            for v in s.ivars():
                ls.append("write(%s);" % v.name)
                a.append(A.E(A.C("write", [A.V(v.name)])))
            for v in s.aggs(lambda v: v.full):
                t, p = s.path(v)
                ls.append("write(%s);" % t)
                a.append(A.E(A.C("write", [["px", v.name, p]])))
            ls.append("return 0;")
            a.append(A.RE(A.N(0)))
        else:
            x = s.retval()
            ls.append("return %s;" % x.t)
            a.append(A.RE(x.a))
        return ls, a

    def program(s):
        r = s.r
        text, funcs = [], {}
        for _ in range(r.choice([0, 1, 1, 2])):
            fs = []
            for i in range(r.randint(1, 4)):
                k = r.random()
                if k < 0.55 or not s.structs and k > 0.8:
                    fs.append(("m%d" % i, "i", ()))
                elif k < 0.8:
                    fs.append(("m%d" % i, "i", r.choice([(2,), (3,), (2, 2)])))
                else:
                    fs.append(("m%d" % i, r.choice(s.structs), r.choice([(), (), (2,)])))
            st = Struct(s.fresh("S"), fs)
            if st.size > 20:
                continue
            s.structs.append(st)
            text.append("struct %s {" % st.name)
            for f, t, d in fs:
                text.append("    %s %s%s;" % ("int" if t == "i" else "struct " + t.name, f, "".join("[%d]" % x for x in d)))
            text.append("};")
        gl = []
        if s.more:
            for _ in range(r.randint(1, 3)):
                ty, dims = r.choice([("i", ()), ("i", ()), ("i", (4,)), ("i", (2, 3))] + [(x, ()) for x in s.structs])
                v = Var(s.fresh("g"), ty, dims)
                v.full = True
                s.globs.append(v)
                text.append("%s %s%s;" % ("int" if ty == "i" else "struct " + ty.name, v.name, "".join("[%d]" % d for d in dims)))
                gl.append(A.D("i", v.name, [v.cells] if v.dims or v.ty != "i" else []))
        if r.random() < 0.5:
            t, fd, f = s.recursive()
            text += t
            funcs.update(fd)
            s.fns.append(f)
        for i in range(r.choice([0, 1, 2, 3])):
            ps = []
            for j in range(r.choice([0, 1, 2, 2, 3, 5, 6])):
                k = r.random()
                n = s.fresh("p")
                if k < 0.65:
                    lo, hi = r.choice([(-WIDE, WIDE), (0, 9), (-50, 50)])
                    ps.append(Var(n, "i", (), lo, hi, ro=(lo, hi) != (-WIDE, WIDE)))
                elif k < 0.85 or not s.structs:
                    ps.append(Var(n, "i", r.choice([(2,), (3,), (4,), (5,), (8,), (2, 3)]), byref=True))
                else:
                    ps.append(Var(n, r.choice(s.structs)))
                ps[-1].full = True
            name = s.fresh("f")
            ls, a = s.function(name, ps)
            text += ["int %s(%s) {" % (name, ", ".join("%s %s%s" % ("int" if p.ty == "i" else "struct " + p.ty.name, p.name, "".join("[%d]" % d for d in p.dims)) for p in ps))]
            text += ["    " + l for l in ls] + ["}"]
            funcs[name] = {"ret": "i", "params": [[p.name, "i" if p.ty == "i" else "S", [] if p.ty == "i" and not p.dims else [p.cells]] for p in ps], "body": a}
            s.fns.append(Fn(name, ps))
        ls, a = s.function("main", [], True)
        text += ["int main() {"] + ["    " + l for l in ls] + ["}"]
        funcs["main"] = {"ret": "i", "params": [], "body": a}
        return dict(source="\n".join(text) + "\n", globals=gl, tac=not s.more, funcs=funcs, input=s.inputs, maxSteps=20000)

    def recursive(s):
        r = s.r
        n = s.fresh("rec")
        k = r.randrange(4)
        x, y = s.fresh("p"), s.fresh("p")
        if k == 0:
            c = r.choice([1, 2])
            t = ["int %s(int %s) {" % (n, x), "    if (%s < 2) return %d;" % (x, c), "    return %s(%s - 1) + %s(%s - 2);" % (n, x, n, x), "}"]
            b = [A.IF(A.B("<", A.V(x), A.N(2)), A.RE(A.N(c))), A.RE(A.B("+", A.C(n, [A.B("-", A.V(x), A.N(1))]), A.C(n, [A.B("-", A.V(x), A.N(2))])))]
            f = Fn(n, [Var(x, "i", (), 0, 7)])
            ps = [[x, "i", []]]
        elif k == 1:
            t = ["int %s(int %s, int %s) {" % (n, x, y), "    if (!%s) return %s;" % (y, x), "    else return %s(%s, %s - %s / %s * %s);" % (n, y, x, x, y, y), "}"]
            b = [A.IF(A.U("!", A.V(y)), A.RE(A.V(x)), A.RE(A.C(n, [A.V(y), A.B("-", A.V(x), A.B("*", A.B("/", A.V(x), A.V(y)), A.V(y)))])))]
            f = Fn(n, [Var(x), Var(y)])
            ps = [[x, "i", []], [y, "i", []]]
        elif k == 2:
            m = r.choice([97, 1009])
            t = ["int %s(int %s, int %s) {" % (n, x, y), "    int z = 0;", "    if (%s <= 0) return %s;" % (x, y), "    z = %s * 3 + %s;" % (y, x),
                 "    write(z);", "    return %s(%s - 1, z - z / %d * %d) - 1;" % (n, x, m, m), "}"]
            b = [A.D("i", "z", [], A.E(A.N(0))), A.IF(A.B("<=", A.V(x), A.N(0)), A.RE(A.V(y))), A.ASG("z", [], A.B("+", A.B("*", A.V(y), A.N(3)), A.V(x))),
                 A.E(A.C("write", [A.V("z")])), A.RE(A.B("-", A.C(n, [A.B("-", A.V(x), A.N(1)), A.B("-", A.V("z"), A.B("*", A.B("/", A.V("z"), A.N(m)), A.N(m)))]), A.N(1)))]
            f = Fn(n, [Var(x, "i", (), 0, 9), Var(y, "i", (), -50, 50)])
            ps = [[x, "i", []], [y, "i", []]]
        else:
            # hanoi-like: four parameters permuted in two recursive calls
            q = [s.fresh("p") for _ in range(3)]
            t = ["int %s(int %s, int %s, int %s, int %s) {" % (n, x, *q), "    if (%s == 1) write(%s * 10 + %s);" % (x, q[0], q[2]), "    else {",
                 "        %s(%s - 1, %s, %s, %s);" % (n, x, q[0], q[2], q[1]), "        write(%s * 10 + %s);" % (q[0], q[2]),
                 "        %s(%s - 1, %s, %s, %s);" % (n, x, q[1], q[0], q[2]), "    }", "    return 0;", "}"]
            wr = A.E(A.C("write", [A.B("+", A.B("*", A.V(q[0]), A.N(10)), A.V(q[2]))]))
            dec = A.B("-", A.V(x), A.N(1))
            b = [A.IF(A.B("==", A.V(x), A.N(1)), wr, A.BL([A.E(A.C(n, [dec, A.V(q[0]), A.V(q[2]), A.V(q[1])])), wr, A.E(A.C(n, [dec, A.V(q[1]), A.V(q[0]), A.V(q[2])]))])), A.RE(A.N(0))]
            f = Fn(n, [Var(x, "i", (), 1, 4)] + [Var(z, "i", (), 0, 9) for z in q])
            ps = [[z, "i", []] for z in [x] + q]
        return t, {n: {"ret": "i", "params": ps, "body": b}}, f


def program(seed, size=1.0, ext=False):
    p = Gen(seed, size, ext).program()
    p["tacable"] = p.pop("tac")
    return p


# ---------------------------------------------------------------- three-address code
def tac_value(t):
    if t[0] == "#":
        return ["n", int(t[1:])]
    if t[0] == "&":
        return ["a", t[1:]]
    return ["v", t]


def parse_tac(text):
    """TAC text -> list of instructions for specs/TAC.tla; raises ValueError on a line that is none"""
    code = []
    for line in text.splitlines():
        k = line.split()
        if not k:
            continue
        if k[0] in ("FUNCTION", "LABEL"):
            if len(k) != 3 or k[2] != ":":
                raise ValueError(line)
            code.append([k[0], k[1]])
        elif k[0] == "DEC":
            code.append(["DEC", k[1], int(k[2]) // 4])
        elif k[0] in ("PARAM", "READ"):
            code.append([k[0], k[1]])
        elif k[0] in ("ARG", "WRITE", "RETURN"):
            code.append([k[0], tac_value(k[1])])
        elif k[0] == "GOTO":
            code.append(["GOTO", k[1]])
        elif k[0] == "IF":
            if k[4] != "GOTO" or k[2] not in ("<", "<=", ">", ">=", "==", "!="):
                raise ValueError(line)
            code.append(["IF", k[2], tac_value(k[1]), tac_value(k[3]), k[5]])
        elif k[1] == ":=":
            if k[0][0] == "*":
                code.append(["ST", tac_value(k[0][1:]), tac_value(k[2])])
            elif k[2] == "CALL":
                code.append(["CALL", k[0], k[3]])
            elif k[2][0] == "*":
                code.append(["LD", k[0], tac_value(k[2][1:])])
            elif len(k) == 3:
                code.append(["MOV", k[0], tac_value(k[2])])
            elif len(k) == 5 and k[3] in "+-*/":
                code.append(["BIN", k[0], k[3], tac_value(k[2]), tac_value(k[4])])
            else:
                raise ValueError(line)
        else:
            raise ValueError(line)
    return code


def tac_program(text):
    code = parse_tac(text)
    return dict(code=code, labels={c[1]: i + 1 for i, c in enumerate(code) if c[0] == "LABEL"},
                funcs={c[1]: i + 1 for i, c in enumerate(code) if c[0] == "FUNCTION"})


def run_tac(progs, work, tag="tac", timeout=600):
    """TLC executes three-address code; progs: dicts with id, code, labels, funcs, input, maxSteps, obs.
    returns {id: (status, result, steps, [indices of observations that differ], output)}"""
    import json, os, re
    from .common import tlc, tlc_stats, die
    path = os.path.join(work, tag + ".ndjson")
    with open(path, "w") as f:
        for p in progs:
            q = {k: p[k] for k in ("id", "code", "labels", "funcs", "input", "maxSteps")}
            q["obs"] = [{k: o[k] for k in ("cfg", "out", "exit")} for o in p["obs"]]
            q["strict"] = p.get("strict", 0)
            f.write(json.dumps(q) + "\n")
    rc, out = tlc("TAC", "TAC.cfg", {"TAC_PROGS": path}, timeout=timeout)
    with open(os.path.join(work, tag + ".tlc"), "w") as f:
        f.write(out)
    res = {}
    for m in re.finditer(r'<<\s*"TAC",\s*"?([^",]+)"?,\s*"(\w+)",\s*(.+?),\s*(\d+),\s*\{([\d,\s]*)\},\s*<<([\d,\s]*)>>\s*>>', out):
        res[m.group(1)] = (m.group(2), m.group(3), int(m.group(4)), [int(x) - 1 for x in m.group(5).split(",") if x.strip()],
                           bytes(int(x) for x in m.group(6).split(",") if x.strip()))
    if rc != 0 or len(res) != len(progs):
        die("TLC did not run every three-address program (rc %s, %d of %d); see %s" % (rc, len(res), len(progs), os.path.join(work, tag + ".tlc")))
    return res, tlc_stats(out)
