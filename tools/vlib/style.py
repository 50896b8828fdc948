"""A printer that writes the same program in a different source style: literal bases and
exponents, comments, white space, merged declarators, else-if chains, redundant
parentheses, empty statements.  The abstract program (and so its meaning) is unchanged."""
import random
from fractions import Fraction
from . import ast


class Styled(ast.Printer):
    def __init__(self, rng):
        super().__init__(extra_parens=rng.choice([0, 0.05, 0.2]), rng=rng)
        self.numstyle = rng.choice([0, 0.3, 0.7])
        self.cm = rng.choice([0, 0.05, 0.15])
        self.sp = rng.random()

    # ---- literals
    def num(self, v):
        r = self.rng
        if v >= 0 and r.random() < self.numstyle:
            k = r.randrange(4)
            if k == 0:
                return r.choice(["0x%x", "0X%X", "0x%X", "0x0%x"]) % v
            if k == 1 and v > 0:
                return "0%o" % v
            if k == 2 and v == 0:
                return r.choice(["0", "0x0", "0X00"])
        return str(v)

    def flt(self, m, e):
        r = self.rng
        s = ast.fl(m, e)
        if r.random() < self.numstyle:
            k = r.randrange(5)
            if k == 0 and s.endswith(".0"):
                return s[:-1]                      # 3.
            if k == 1 and s.startswith("0.") :
                return s[1:]                       # .5
            if k == 2:
                i, f = s.split(".")
                f = "" if f == "0" else f
                d = int(i + f)
                return "%d%s%d" % (d, r.choice(["e-", "E-"]), len(f)) if f else "%d%s0" % (d, r.choice(["e", "E+", "e-"]))
            if k == 3 and m > 0:
                mm, ee = m, e
                while mm % 2 == 0:
                    mm //= 2
                    ee += 1
                return "0x%x.p%d" % (mm, ee) if r.random() < .5 else "0X%X.0P%+d" % (mm, ee)
            if k == 4:
                return s + r.choice(["00", "f", "0F"])
        return s

    def raw(self, e):
        if e[0] == "n":
            v = e[1]
            if v == -2147483648 and self.rng.random() < self.numstyle:
                return "-2147483648", ast.UN
            if v == -2147483648:
                return "%s%s - 1" % ("-", self.num(2147483647)), 9
            return (self.num(v), 20) if v >= 0 else ("-" + self.num(-v), ast.UN)
        if e[0] == "x":
            return (self.flt(e[1], e[2]), 20) if e[1] >= 0 else ("-" + self.flt(-e[1], e[2]), ast.UN)
        return super().raw(e)

    # ---- statements
    def seq(self, ss, ind):
        """merge adjacent declarations of the same type into one"""
        o, i = [], 0
        while i < len(ss):
            s = ss[i]
            if s[0] == "d":
                j = i + 1
                while j < len(ss) and ss[j][0] == "d" and ss[j][1] == s[1] and len(ss[j]) > 5 and len(s) > 5 and ss[j][5] == s[5] and self.rng.random() < 0.5:
                    j += 1
                if j > i + 1:
                    parts = [self.decl(x)[:-1] for x in ss[i:j]]
                    head = ("const " if s[5] else "") + ast.TY[s[1]] + " "
                    o.append("  " * ind + head + ", ".join(p[len(head):] for p in parts) + ";\n")
                    i = j
                    continue
            o.append(self.stmt(s, ind))
            i += 1
        return "".join(o)

    def decl(self, s):
        r = "%s%s %s%s" % ("const " if len(s) > 5 and s[5] else "", ast.TY[s[1]], s[2], "".join("[%s]" % self.num(d) for d in s[3]))
        if s[4][0] != "none":
            r += " = " + self.init(s[4])
        return r + ";"

    def stmt(self, s, ind):
        r, pad, t = self.rng, "  " * ind, s[0]
        if t == "bl":
            return pad + "{\n" + self.seq(s[1], ind + 1) + pad + "}\n"
        if t == "if" and len(s) > 3 and s[3][0] == "if" and r.random() < 0.7:
            then = s[2]
            if then[0] in ("if", "wh", "for", "do"):
                then = ast.BL([then])
            return pad + "if (%s)\n" % self.e(s[1]) + self.stmt(then, ind + 1) + pad + "else " + self.stmt(s[3], ind).lstrip()
        x = super().stmt(s, ind)
        if r.random() < self.cm:
            c = r.choice(["// %s\n", "/* %s */\n", "/* %s\n * { ( [ \n */\n", "/** %s **/ ", "//// %s /*\n", "/*/ %s /*/ "])
            x = pad + c % r.choice(["note", "x=1;", "}", "a * b / c", "\"q\"", "if(0){", "***", "// nested"]) + x
        return x

    def program(self, p):
        r = self.rng
        o = [self.seq(p["globals"], 0)]
        for name in p["order"]:
            f = p["funcs"][name]
            ps = []
            for (n, ty, dims) in f["params"]:
                ps.append("%s %s%s" % (ast.TY[ty], n, "".join("[]" if k == 0 else "[%s]" % self.num(d) for k, d in enumerate(dims))))
            o.append("%s %s(%s) {\n" % (ast.TY[f["ret"]], name, ", ".join(ps)))
            o.append(self.seq(f["body"], 1))
            o.append("}\n")
        s = "".join(o)
        if self.sp < 0.2:
            s = s.replace("\n", "\r\n")
        elif self.sp < 0.35:
            s = s.replace("  ", "\t").replace(" = ", "=").replace(" + ", "+").replace(", ", ",")
        elif self.sp < 0.5:
            s = s.replace(" = ", "\n=\n").replace("(", " ( ").replace(")", " ) ").replace("[", "[ ").replace(";", " ;")
        elif self.sp < 0.6:
            s = s.rstrip("\n")
        return s


def to_source(p, seed):
    return Styled(random.Random(seed)).program(p)
