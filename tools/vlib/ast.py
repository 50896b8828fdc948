"""SysY abstract syntax: constructors (JSON arrays, the form specs/SysY.tla reads)
and a printer that emits source text with only the parentheses the grammar needs."""

IMP = {"B", "U", "IX", "AD", "AND", "OR", "COND", "C"}


def imp(e):
    return e[0] in IMP


def N(v):
    return ["n", v]


def X(m, e=0):
    return ["x", m, e]


def V(name):
    return ["v", name]


def B(op, a, b):
    return ["B" if imp(a) or imp(b) else "b", op, a, b]


def U(op, a):
    return ["U" if imp(a) else "u", op, a]


def IX(name, idx):
    return ["IX" if any(imp(i) for i in idx) else "ix", name, idx]


def AND(a, b):
    return ["AND" if imp(a) or imp(b) else "and", a, b]


def OR(a, b):
    return ["OR" if imp(a) or imp(b) else "or", a, b]


def COND(c, a, b):
    return ["COND" if imp(a) or imp(b) or imp(c) else "cond", c, a, b]


def C(f, args):
    return ["C", f, args]


def AD(name, idx=()):
    """the lvalue of an assignment expression"""
    return ["AD" if any(imp(i) for i in idx) else "ad", name, list(idx)]


def SET(lv, e, op=""):
    """assignment expression; op: "", an operator, pre+ pre- post+ post-"""
    return ["C", "$" + op, [lv, e]]


# statements
def D(ty, name, dims=None, init=None, const=False):
    return ["d", ty, name, dims or [], init or ["none"], 1 if const else 0]


def E(e):
    return ["e", e]


def L(items):
    return ["l", items]


def ASG(name, idx, e, op=""):
    return ["=", [name, idx], op, e]


def IF(c, a, b=None):
    return ["if", c, a] + ([b] if b is not None else [])


def WH(c, body):
    return ["wh", c, body]


def DO(body, c):
    return ["do", body, c]


def FOR(init, c, step, body):
    return ["for", init, c, step, body]


def BL(stmts):
    return ["bl", stmts]


BR = ["br"]
CO = ["co"]


def RE(e=None):
    return ["re"] + ([e] if e is not None else [])


PREC = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, ">": 7, "<=": 7, ">=": 7,
        "==": 6, "!=": 6, "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1, "?": 0, ",": 0}
UN = 11
TY = {"i": "int", "f": "float", "v": "void"}


def fl(m, e):
    """decimal text of m*2^e that reads back exactly"""
    from fractions import Fraction
    v = Fraction(m) * Fraction(2) ** e
    s = repr(float(v))
    if "e" in s or "." not in s:
        s = "%.12f" % float(v)
        s = s.rstrip("0")
        if s.endswith("."):
            s += "0"
    return s


class Printer:
    def __init__(self, extra_parens=0, rng=None):
        self.rng = rng
        self.extra = extra_parens

    def e(self, e, p=0):
        s, q = self.raw(e)
        if q < p or (self.rng and self.extra and self.rng.random() < self.extra):
            return "(" + s + ")"
        return s

    def raw(self, e):
        t = e[0]
        if t == "n":
            v = e[1]
            if v == -2147483648:
                return "-2147483647 - 1", 9
            if v < 0:
                return "-%d" % -v, UN
            return str(v), 20
        if t == "x":
            if e[1] < 0:
                return "-" + fl(-e[1], e[2]), UN
            return fl(e[1], e[2]), 20
        if t == "v":
            return e[1], 20
        if t in ("b", "B"):
            op = e[1]
            if op == ",":
                return "(%s, %s)" % (self.e(e[2], -1), self.e(e[3], -1)), 20
            p = PREC[op]
            r = self.e(e[3], p + 1)
            if r[0] in "+-" and op in "+-":
                r = " " + r
            return "%s %s %s" % (self.e(e[2], p), op, r), p
        if t in ("and", "AND"):
            return "%s && %s" % (self.e(e[1], 2), self.e(e[2], 3)), 2
        if t in ("or", "OR"):
            return "%s || %s" % (self.e(e[1], 1), self.e(e[2], 2)), 1
        if t in ("cond", "COND"):
            return "%s ? %s : %s" % (self.e(e[1], 1), self.e(e[2], 1), self.e(e[3], 1)), 0
        if t in ("u", "U"):
            a = self.e(e[2], UN)
            op = e[1]
            if op == "!!":
                return "!!" + a, UN
            if op in "+-" and a[0] in "+-":
                a = "(" + a + ")"
            return op + a, UN
        if t in ("ix", "IX"):
            return e[1] + "".join("[%s]" % self.e(i) for i in e[2]), 20
        if t in ("ad", "AD"):
            return e[1] + "".join("[%s]" % self.e(i) for i in e[2]), 20
        if t == "ap":
            return e[1] + "".join(e[3]), 20
        if t == "C" and e[1][0] == "$":
            lv, op = self.raw(e[2][0])[0], e[1][1:]
            if op[:3] == "pre":
                return op[3] * 2 + lv, UN
            if op[:4] == "post":
                return lv + op[4] * 2, 20
            return "%s %s= %s" % (lv, op, self.e(e[2][1], -1)), -1
        if t == "C":
            return "%s(%s)" % (e[1], ", ".join(self.e(a) for a in e[2])), 20
        raise ValueError(t)

    def init(self, i):
        if i[0] == "e":
            return self.e(i[1])
        return "{" + ", ".join(self.init(x) for x in i[1]) + "}"

    def decl(self, s):
        r = "%s%s %s%s" % ("const " if len(s) > 5 and s[5] else "", TY[s[1]], s[2], "".join("[%d]" % d for d in s[3]))
        if s[4][0] != "none":
            r += " = " + self.init(s[4])
        return r + ";"

    def simple(self, s):
        if s[0] == "=":
            lv = s[1][0] + "".join("[%s]" % self.e(i) for i in s[1][1])
            if s[2] and s[2] in self.noCompound:
                raise ValueError
            return "%s %s= %s" % (lv, s[2], self.e(s[3], -1))
        return self.e(s[1], -1)

    noCompound = ()

    def stmt(self, s, ind):
        pad = "  " * ind
        t = s[0]
        if t in ("=", "e"):
            return pad + self.simple(s) + ";\n"
        if t == "d":
            return pad + self.decl(s) + "\n"
        if t == "bl":
            return pad + "{\n" + "".join(self.stmt(x, ind + 1) for x in s[1]) + pad + "}\n"
        if t == "if":
            then = s[2]
            if len(s) > 3 and then[0] in ("if", "wh", "for"):
                then = BL([then])      # dangling else
            r = pad + "if (%s)\n" % self.e(s[1]) + self.stmt(then, ind + 1)
            if len(s) > 3:
                r += pad + "else\n" + self.stmt(s[3], ind + 1)
            return r
        if t == "wh":
            return pad + "while (%s)\n" % self.e(s[1]) + self.stmt(s[2], ind + 1)
        if t == "do":
            return pad + "do\n" + self.stmt(s[1], ind + 1) + pad + "while (%s);\n" % self.e(s[2])
        if t == "for":
            i = self.decl(s[1]) if s[1][0] == "d" else self.simple(s[1]) + ";"
            return pad + "for (%s %s; %s)\n" % (i, self.e(s[2]), self.simple(s[3])) + self.stmt(s[4], ind + 1)
        if t == "lb":
            return "%s:\n" % s[1]
        if t == "go":
            return pad + "goto %s;\n" % s[1]
        if t == "br":
            return pad + "break;\n"
        if t == "co":
            return pad + "continue;\n"
        if t == "re":
            return pad + ("return %s;\n" % self.e(s[1]) if len(s) > 1 else "return;\n")
        raise ValueError(t)

    def program(self, p):
        o = []
        for g in p["globals"]:
            o.append(self.decl(g) + "\n")
        for name in p["order"]:
            f = p["funcs"][name]
            ps = []
            for (n, ty, dims) in f["params"]:
                ps.append("%s %s%s" % (TY[ty], n, "".join("[]" if k == 0 else "[%d]" % d for k, d in enumerate(dims))))
            o.append("%s %s(%s) {\n" % (TY[f["ret"]], name, ", ".join(ps)))
            o.extend(self.stmt(s, 1) for s in f["body"])
            o.append("}\n")
        return "".join(o)


def to_source(p, **kw):
    return Printer(**kw).program(p)
