"""Parser of SysY text into the syntax of vlib.ast (used for idiom templates and directed programs)"""
import re
from fractions import Fraction
from .ast import *

TOK = re.compile(r"\s*(?:(//[^\n]*|/\*.*?\*/)|(\d+\.\d*(?:[eE][-+]?\d+)?|0[xX][0-9a-fA-F]+|\d+|[A-Za-z_]\w*|<<=|>>=|\+\+|--|<=|>=|==|!=|&&|\|\||<<|>>|[-+*/%&|^]=|[-+*/%<>=!~&|^?:;,(){}\[\]]))", re.S)


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError("bad token at " + repr(s[i:i + 30]))
        i = m.end()
        if m.group(2):
            out.append(m.group(2))
    return out


def exact(lit):
    v = Fraction(lit)
    e = 0
    while v.denominator != 1:
        v *= 2
        e -= 1
        if e < -60:
            raise SyntaxError("inexact literal " + lit)
    m = v.numerator
    while m and m % 2 == 0:
        m //= 2
        e += 1
    return X(m, e) if m else X(0, 0)


ASSIGN = ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=")


class Parser:
    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ""

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise SyntaxError("expected %r got %r near %s" % (x, self.peek(), " ".join(self.t[max(0, self.i - 8):self.i + 4])))

    def lvalue(self, e):
        if e[0] == "v":
            return AD(e[1], [])
        if e[0] in ("ix", "IX"):
            return AD(e[1], e[2])
        raise SyntaxError("not an lvalue")

    def expr(self):
        c = self.binary(1)
        if self.peek() in ASSIGN:
            op = self.next()
            return SET(self.lvalue(c), self.expr(), op[:-1])
        if self.eat("?"):
            a = self.expr()
            self.need(":")
            return COND(c, a, self.expr())
        return c

    def binary(self, p):
        if p > 10:
            return self.unary()
        a = self.binary(p + 1)
        while self.peek() in PREC and PREC[self.peek()] == p and p > 0:
            op = self.next()
            b = self.binary(p + 1)
            a = AND(a, b) if op == "&&" else OR(a, b) if op == "||" else B(op, a, b)
        return a

    def unary(self):
        t = self.peek()
        if t in ("-", "!", "~", "+"):
            self.next()
            a = self.unary()
            if t == "-" and a[0] == "n" and a[1] > 0:
                return N(-a[1])
            if t == "-" and a[0] == "x" and a[1] > 0:
                return X(-a[1], a[2])
            return a if t == "+" else U(t, a)
        if t in ("++", "--"):
            self.next()
            return SET(self.lvalue(self.unary()), N(1), "pre" + t[0])
        e = self.primary()
        while self.peek() in ("++", "--"):
            e = SET(self.lvalue(e), N(1), "post" + self.next()[0])
        return e

    def primary(self):
        t = self.peek()
        if t == "(":
            self.next()
            e = self.expr()
            while self.eat(","):
                e = B(",", e, self.expr())
            self.need(")")
            return e
        self.next()
        if t[0].isdigit():
            if "." in t:
                return exact(t)
            return N(int(t, 16 if t[:2] in ("0x", "0X") else 8 if len(t) > 1 and t[0] == "0" else 10))
        if self.eat("("):
            a = []
            while not self.eat(")"):
                a.append(self.expr())
                self.eat(",")
            return C(t, a)
        ix = self.indices()
        return IX(t, ix) if ix else V(t)

    def indices(self):
        ix = []
        while self.eat("["):
            ix.append(self.expr())
            self.need("]")
        return ix

    def init(self):
        if self.eat("{"):
            items = []
            while not self.eat("}"):
                items.append(self.init())
                self.eat(",")
            return L(items)
        return ["e", self.expr()]

    def decls(self):
        const = self.eat("const")
        ty = {"int": "i", "float": "f"}[self.next()]
        out = []
        while True:
            name = self.next()
            dims = [self.const(e) for e in self.indices()]
            init = self.init() if self.eat("=") else ["none"]
            out.append(D(ty, name, dims, init, const))
            if not self.eat(","):
                break
        self.need(";")
        return out

    def const(self, e):
        if e[0] != "n":
            raise SyntaxError("dimension must be a literal")
        return e[1]

    def simple(self):
        j = self.i
        name = self.peek()
        if re.match(r"[A-Za-z_]", name) and self.peek(1) in ("=", "[", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="):
            self.next()
            ix = self.indices()
            op = self.peek()
            if op == "=" or (op.endswith("=") and op not in ("==", "<=", ">=", "!=")):
                if not any(imp(i) for i in ix):
                    self.next()
                    return ASG(name, ix, self.expr(), op[:-1])
            self.i = j
        return E(self.expr())

    def stmt(self):
        """a list of statements (declarations may give several)"""
        t = self.peek()
        if t in ("const", "int", "float"):
            return self.decls()
        if t == "{":
            return [self.block()]
        if self.eat(";"):
            return []
        if self.eat("if"):
            self.need("(")
            c = self.expr()
            self.need(")")
            a = self.one()
            if self.eat("else"):
                return [IF(c, a, self.one())]
            return [IF(c, a)]
        if self.eat("while"):
            self.need("(")
            c = self.expr()
            self.need(")")
            return [WH(c, self.one())]
        if self.eat("do"):
            b = self.one()
            self.need("while")
            self.need("(")
            c = self.expr()
            self.need(")")
            self.need(";")
            return [DO(b, c)]
        if self.eat("for"):
            self.need("(")
            if self.peek() == "int":
                i = self.decls()
                assert len(i) == 1
                i = i[0]
            else:
                i = self.simple()
                self.need(";")
            c = self.expr()
            self.need(";")
            s = self.simple()
            self.need(")")
            return [FOR(i, c, s, self.one())]
        if self.eat("goto"):
            l = self.next()
            self.need(";")
            return [["go", l]]
        if re.match(r"[A-Za-z_]", t) and self.peek(1) == ":":
            self.next()
            self.next()
            return [["lb", t]]
        if self.eat("break"):
            self.need(";")
            return [BR]
        if self.eat("continue"):
            self.need(";")
            return [CO]
        if self.eat("return"):
            if self.eat(";"):
                return [RE()]
            e = self.expr()
            self.need(";")
            return [RE(e)]
        s = self.simple()
        self.need(";")
        return [s]

    def one(self):
        s = self.stmt()
        return s[0] if len(s) == 1 and s[0][0] != "d" else BL(s)

    def block(self):
        self.need("{")
        out = []
        while not self.eat("}"):
            out += self.stmt()
        return BL(out)

    def unit(self):
        """-> globals, {name: function}, order"""
        g, fs, order = [], {}, []
        while self.peek():
            if self.peek(2) == "(":
                ret = {"int": "i", "void": "v", "float": "f"}[self.next()]
                name = self.next()
                self.need("(")
                ps = []
                while not self.eat(")"):
                    ty = {"int": "i", "float": "f"}[self.next()]
                    pn = self.next()
                    dims = []
                    while self.eat("["):
                        dims.append(0 if self.peek() == "]" else int(self.next()))
                        self.need("]")
                    ps.append([pn, ty, dims])
                    self.eat(",")
                fs[name] = {"ret": ret, "params": ps, "body": self.block()[1]}
                order.append(name)
            else:
                g += self.decls()
        return g, fs, order


def parse(text):
    return Parser(text).unit()


def program(text, inp=(), pid=0, steps=20000):
    g, fs, order = parse(text)
    return {"id": pid, "globals": g, "funcs": fs, "order": order, "input": list(inp), "maxSteps": steps, "obs": []}
