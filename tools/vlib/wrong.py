"""Programs for specs/Static.tla: well-formed SPL (strict) and SysY programs and programs with faults put in at random
places.  The generator only steers: whether a program is ill-formed, and where, is decided by the specification."""
import random
import re

INT, FLOAT, CHAR, VOID = ["int"], ["float"], ["char"], ["void"]


def arr(t, dims):
    for n in reversed(dims):
        t = ["array", t, n]
    return t


def sized(t, dims):
    """declared type: with the expressions of the sizes"""
    for n, e in reversed(dims):
        t = ["array", t, n, e]
    return t


def dims_of(t):
    return ([t[2]] + dims_of(t[1])) if t[0] == "array" else []


def scalar(t):
    return scalar(t[1]) if t[0] == "array" else t


class Gen:
    def __init__(self, seed, dialect, faults):
        self.r = random.Random("wrong %s %d" % (dialect, seed))
        self.spl = dialect == "spl"
        self.lines, self.items = [], []
        self.scopes = [{}]                 # name -> ("var", type, const) | ("fun", ret, params)
        self.structs = {}                  # name -> [(member, type)]
        self.n = 0
        self.old = []                      # names that have gone out of scope
        self.later = []                    # functions not yet defined
        self.faults = faults               # how many to put in
        self.rate = 0.12
        self.loops = 0
        self.ret = None
        self.depth = 0
        if self.spl:
            self.builtins = {"read": [INT, []], "write": [VOID, [INT]]}
        else:
            self.builtins = {"getint": [INT, []], "getfloat": [FLOAT, []], "putint": [VOID, [INT]], "putch": [VOID, [INT]],
                             "putfloat": [VOID, [FLOAT]], "getarray": [INT, [["array", INT, 0]]],
                             "putarray": [VOID, [INT, ["array", INT, 0]]]}
        for k, (t, ps) in self.builtins.items():
            self.scopes[0][k] = ("fun", t, ps)

    # -- text
    def line(self):
        return len(self.lines) + 1

    def put(self, text, *items):
        """one line; items get its number as their second component where they have one"""
        n = self.line()
        self.lines.append("  " * self.depth + text)
        for i in items:
            self.items.append([i[0], n] + i[1:] if i[0] not in ("open", "close", "endfunc") else i)

    def name(self, base="v"):
        self.n += 1
        return "%s%d" % (self.r.choice(base), self.n)

    def fault(self):
        if self.faults > 0 and self.r.random() < self.rate:
            self.faults -= 1
            return True
        return False

    # -- scope
    def look(self, x):
        for s in reversed(self.scopes):
            if x in s:
                return s[x]

    def vars(self, want=None, assign=False):
        out = []
        seen = set()
        for s in reversed(self.scopes):
            for x, v in s.items():
                if x not in seen:
                    seen.add(x)
                    if v[0] == "var" and (want is None or want(v[1])) and not (assign and v[2]):
                        out.append((x, v[1]))
        return out

    def funs(self, want):
        return [(x, v) for x, v in self.scopes[0].items() if v[0] == "fun" and self.look(x) == v and want(v[1])]

    # -- places: lvalue expressions of type t
    def places(self, t, depth, assign=False):
        out = []
        for x, u in self.vars(assign=assign):
            self.walk(["id", x], x, u, t, depth, out)
        return out

    def walk(self, e, text, u, t, depth, out):
        if u == t:
            out.append((e, text))
            return
        if u[0] == "array":
            i, s = self.expr(INT, max(0, depth - 1)) if depth > 0 and len(out) < 6 else self.lit(INT)
            self.walk(["idx", e, i], "%s[%s]" % (text, s), u[1], t, depth, out)
        elif u[0] == "struct" and u[1] in self.structs:
            for m, w in self.structs[u[1]]:
                self.walk(["mem", e, m], "%s.%s" % (text, m), w, t, depth, out)

    def lit(self, t):
        if t == INT:
            k = self.r.randint(0, 9)
            return ["int", k], str(k)
        if t == FLOAT:
            return ["float"], self.r.choice(["1.5", "0.25", "3.0", "12.75"])
        return ["char"], "'%s'" % self.r.choice("abcxyz")

    def any_type(self):
        c = [INT, INT, FLOAT]
        if self.spl:
            c += [["struct", s] for s in self.structs]
        return self.r.choice(c)

    def place(self, t, depth, assign=False):
        c = self.places(t, depth, assign)
        return self.r.choice(c) if c else None

    def expr(self, t, depth):
        """an expression of type t (json, text); text is a primary or parenthesised"""
        r = self.r
        if self.fault():
            b = self.bad(t, depth)
            if b:
                return b
            self.faults += 1
        if t[0] in ("struct", "array"):
            c = self.places(t, depth)
            f = self.funs(lambda u: u == t)
            if f and depth > 0 and r.random() < 0.3:
                return self.call(r.choice(f)[0], depth)
            if c:
                return r.choice(c)
            if f and depth > -2:
                return self.call(r.choice(f)[0], depth - 1)
            return None
        if depth <= 0 or r.random() < 0.25:
            p = self.place(t, 0) if r.random() < 0.7 else None
            return p or self.lit(t)
        k = r.random()
        if k < 0.25:
            p = self.place(t, depth)
            if p:
                return p
        if k < 0.4:
            f = self.funs(lambda u: u == t)
            if f:
                c = self.call(r.choice(f)[0], depth)
                if c:
                    return c
        if t == CHAR:
            return self.lit(t)
        if k < 0.5:
            e, s = self.expr(t, depth - 1)
            if t == INT and r.random() < 0.4:
                return ["un", "!", e], "(!%s)" % s
            return ["un", "-", e], "(-%s)" % s
        if t == INT and k < 0.62:
            u = r.choice([INT, INT, FLOAT])
            a, b = self.expr(u, depth - 1), self.expr(u, depth - 1)
            o = r.choice(["<", "<=", ">", ">=", "==", "!="])
            return ["bin", o, a[0], b[0]], "(%s %s %s)" % (a[1], o, b[1])
        if t == INT and k < 0.7:
            a, b = self.expr(INT, depth - 1), self.expr(INT, depth - 1)
            o = r.choice(["&&", "||"])
            return ["bin", o, a[0], b[0]], "(%s %s %s)" % (a[1], o, b[1])
        if k < 0.75 and self.spl:
            p = self.place(t, depth - 1, True)
            if p:
                b = self.expr(t, depth - 1)
                return ["set", p[0], b[0]], "(%s = %s)" % (p[1], b[1])
        u = (INT if t == FLOAT and r.random() < 0.3 else t) if not self.spl else t
        a, b = self.expr(t, depth - 1), self.expr(u, depth - 1)
        o = r.choice("+-*/" + ("%" if t == INT and not self.spl else ""))
        return ["bin", o, a[0], b[0]], "(%s %s %s)" % (a[1], o, b[1])

    def call(self, f, depth, swap=None):
        v = self.scopes[0][f]
        js, ts = [], []
        for i, p in enumerate(v[2]):
            if p[0] == "array" and p[2] == 0:
                c = [(["id", x], x) for x, u in self.vars(lambda u: u[0] == "array" and u[1] == p[1], True)]
                a = self.r.choice(c) if c else None
            else:
                a = self.expr(p, depth - 1)
            if a is None:
                return None
            js.append(a[0])
            ts.append(a[1].strip("()") if False else a[1])
        return ["call", f, js], "%s(%s)" % (f, ", ".join(ts))

    # -- ill-formed expressions where type t is wanted
    def bad(self, t, depth):
        r = self.r
        d = max(depth - 1, 0)
        for _ in range(12):
            k = r.choice(["undef", "undef", "old", "nofun", "later", "type", "type", "count", "count", "arg", "arg", "index", "index", "deep",
                          "member", "nomember", "callvar", "operand", "rvalue", "fidx", "const", "cond", "mix", "void"])
            if k == "undef":
                x = self.name("u")
                return ["id", x], x
            if k == "old" and self.old:
                x = r.choice(self.old)
                if not self.look(x):
                    return ["id", x], x
            if k == "nofun":
                x = self.name("w")
                a = self.lit(INT)
                return ["call", x, [a[0]]], "%s(%s)" % (x, a[1])
            if k == "later" and self.later:
                x = r.choice(self.later)
                return ["call", x, []], x + "()"
            if k == "type":
                u = r.choice([INT, FLOAT] + [["struct", s] for s in self.structs] + [v for _, v in self.vars(lambda v: v[0] == "array")])
                near = [v for _, v in self.vars(lambda v: v[0] == "array" and v[1] == t)]
                if near and r.random() < 0.3:
                    u = r.choice(near)
                # struct and array values below an operator are covered by "operand"
                if u != t and (self.spl or u[0] == "array" or t[0] not in ("int", "float")) and not (not self.spl and t[0] == "array" and u[0] == "array"):
                    if not self.spl and u[0] == "array" and t[0] == "array":
                        continue
                    if u[0] in ("int", "float"):
                        e = self.expr(u, d)
                    else:
                        e = self.place(u, 0)
                    if e:
                        return e
            if k in ("count", "arg"):
                f = self.funs(lambda u: u == t)
                if f:
                    x, v = r.choice(f)
                    if k == "count":
                        m = r.choice([len(v[2]) + 1, len(v[2]) - 1, len(v[2]) + 2])
                        if m >= 0:
                            a = [self.lit(r.choice([INT, FLOAT])) for _ in range(m)]
                            for i, p in enumerate(v[2][:m]):
                                a[i] = (self.expr(p, 0) if p[0] != "array" or p[2] else None) or a[i]
                            return ["call", x, [q[0] for q in a]], "%s(%s)" % (x, ", ".join(q[1] for q in a))
                    elif v[2]:
                        c = self.call(x, d)
                        if c:
                            i = r.randrange(len(v[2]))
                            arrays = [j for j, w in enumerate(v[2]) if w[0] == "array"]
                            if arrays and r.random() < 0.6:
                                i = r.choice(arrays)
                            p = v[2][i]
                            others = [u for u in [INT, FLOAT] + [["struct", s] for s in self.structs] + [w for _, w in self.vars(lambda w: w[0] == "array")] if u != p]
                            if not self.spl:
                                others = [u for u in others if (u[0] == "array") != (p[0] == "array")]
                            if others:
                                near = [u for u in others if p[0] == "array" and u[0] == "array" and scalar(u) == scalar(p)]
                                if near and r.random() < 0.8:        # as many dimensions, if there is one
                                    near = [u for u in near if len(dims_of(u)) == len(dims_of(p))] or near
                                    others = near
                                q = r.choice(others)
                                q = self.place(q, 0) if q[0] not in ("int", "float") else self.lit(q)
                                if q:
                                    js = list(c[0][2])
                                    ts = [self.show(j) for j in js]
                                    if None not in ts:
                                        js[i], ts[i] = q
                                        return ["call", x, js], "%s(%s)" % (x, ", ".join(ts))
            if k == "index":
                c = [p for u in [INT, FLOAT] + [["struct", s] for s in self.structs] for p in self.places(u, 0)]
                if c:
                    e = r.choice(c)
                    i = self.lit(INT)
                    return ["idx", e[0], i[0]], "%s[%s]" % (e[1], i[1])
            if k in ("deep", "fidx"):
                c = self.vars(lambda u: u[0] == "array")
                if c:
                    x, u = r.choice(c)
                    e, s = ["id", x], x
                    if k == "fidx":
                        if not self.spl:
                            w = [z for z in c if z[1]] if r.random() < 0.5 else []
                            i = (["id", w[0][0]], w[0][0]) if w else None
                        else:
                            i = r.choice([self.lit(FLOAT), self.place(FLOAT, 0), self.place(r.choice([["struct", z] for z in self.structs] or [FLOAT]), 0), (["id", x], x)])
                        if i:
                            while u[0] == "array":
                                e, s, u = ["idx", e, i[0]], "%s[%s]" % (s, i[1]), u[1]
                                i = self.lit(INT)
                            return e, s
                    else:
                        for _ in range(len(dims_of(u)) + 1):
                            i = self.lit(INT)
                            e, s = ["idx", e, i[0]], "%s[%s]" % (s, i[1])
                        return e, s
            if k == "member" and self.spl:
                c = self.places(INT, 0) + self.places(FLOAT, 0) + [(["id", x], x) for x, u in self.vars(lambda u: u[0] == "array")]
                ms = [m for fs in self.structs.values() for m, _ in fs]
                if c and ms:
                    e = r.choice(c)
                    m = r.choice(ms)
                    return ["mem", e[0], m], "%s.%s" % (e[1], m)
            if k == "nomember" and self.spl and self.structs:
                s = r.choice(list(self.structs))
                c = self.places(["struct", s], 0)
                ms = [m for fs in self.structs.values() for m, _ in fs if m not in [q for q, _ in self.structs[s]]] + [self.name("m")] + \
                    [x for x, _ in self.vars() if x not in [q for q, _ in self.structs[s]]][:2]
                if c:
                    e = r.choice(c)
                    m = r.choice(ms)
                    return ["mem", e[0], m], "%s.%s" % (e[1], m)
            if k == "callvar":
                c = self.vars(lambda u: u[0] in ("int", "float"))
                if c:
                    x = r.choice(c)[0]
                    return ["call", x, []], x + "()"
            if k == "operand":
                c = [p for s in self.structs for p in self.places(["struct", s], 0)] + [(["id", x], x) for x, u in self.vars(lambda u: u[0] == "array")]
                if c and t[0] in ("int", "float"):
                    e = r.choice(c)
                    o = r.choice("+-*/") if r.random() < 0.6 else r.choice(["<", "==", ">="])
                    b = self.expr(t, 0)
                    if r.random() < 0.15:
                        return ["un", "-", e[0]], "(-%s)" % e[1]
                    if r.random() < 0.5:
                        return ["bin", o, e[0], b[0]], "(%s %s %s)" % (e[1], o, b[1])
                    return ["bin", o, b[0], e[0]], "(%s %s %s)" % (b[1], o, e[1])
            if k == "mix" and self.spl and t[0] in ("int", "float"):
                a, b = self.expr(INT, 0), self.expr(FLOAT, 0)
                o = r.choice(["+", "-", "*", "/", "<", "=="])
                if r.random() < 0.5:
                    a, b = b, a
                return ["bin", o, a[0], b[0]], "(%s %s %s)" % (a[1], o, b[1])
            if k == "cond" and self.spl and t == INT:
                a, b = self.expr(FLOAT, 0), self.expr(INT, 0)
                return r.choice([(["un", "!", a[0]], "(!%s)" % a[1]), (["bin", "&&", a[0], b[0]], "(%s && %s)" % (a[1], b[1])),
                                 (["bin", "||", b[0], a[0]], "(%s || %s)" % (b[1], a[1]))])
            if k == "rvalue" and self.spl and t[0] in ("int", "float"):
                a, b = self.expr(t, 1), self.expr(t, 0)
                if a[0][0] in ("bin", "int", "float", "call", "set", "un"):
                    return ["set", a[0], b[0]], "(%s = %s)" % (a[1], b[1])
            if k == "void" and not self.spl and t[0] in ("int", "float"):
                f = self.funs(lambda u: u == VOID)
                c = self.call(r.choice(f)[0], d) if f else None
                if c:
                    return c

    def show(self, e):
        """text of the simple expressions that arguments consist of"""
        k = e[0]
        if k == "int":
            return str(e[1])
        if k == "float":
            return "2.5"
        if k == "char":
            return "'c'"
        if k == "id":
            return e[1]
        if k == "bin":
            a, b = self.show(e[2]), self.show(e[3])
            return None if a is None or b is None else "(%s %s %s)" % (a, e[1], b)
        if k == "un":
            a = self.show(e[2])
            return None if a is None else "(%s%s)" % (e[1], a)
        if k == "set":
            a, b = self.show(e[1]), self.show(e[2])
            return None if a is None or b is None else "(%s = %s)" % (a, b)
        if k == "idx":
            a, b = self.show(e[1]), self.show(e[2])
            return None if a is None or b is None else "%s[%s]" % (a, b)
        if k == "mem":
            a = self.show(e[1])
            return None if a is None else "%s.%s" % (a, e[2])
        if k == "call":
            a = [self.show(x) for x in e[2]]
            return None if None in a else "%s(%s)" % (e[1], ", ".join(a))

    # -- declarations
    def declare(self, name, t, const=False):
        if name not in self.scopes[-1]:
            self.scopes[-1][name] = ("var", t, const)

    def type_text(self, t):
        return "struct " + t[1] if t[0] == "struct" else t[0]

    def decl(self):
        r = self.r
        glob = len(self.scopes) == 1
        t = self.any_type()
        if self.spl and r.random() < 0.08:
            t = CHAR
        x = self.name("abcxyz")
        k = r.random()
        if k < 0.12:                                       # shadows an outer variable, perhaps with another type
            outer = [n for s in self.scopes[:-1] for n, v in s.items() if n not in self.scopes[-1] and v[0] == "var"]
            if outer:
                x = r.choice(outer)
        elif k < 0.2:                                      # used before, out of scope now
            o = [n for n in self.old if n not in self.scopes[-1]]
            if o:
                x = r.choice(o)
        if self.fault():
            own = [n for n, v in self.scopes[-1].items() if v[0] == "var"] if not glob else [n for n, v in self.scopes[0].items() if v[0] == "var"]
            if own and r.random() < 0.6:
                x = r.choice(own)
            elif self.spl and r.random() < 0.4:
                t = ["struct", self.name("S")]
            else:
                self.faults += 1
        dims = []
        if r.random() < 0.3 and t != CHAR:
            for _ in range(r.choice([1, 1, 2])):
                n = r.randint(1, 4)
                e = (["int", n], str(n))
                if not self.spl and r.random() < 0.2:
                    c = [z for z, u in self.vars(lambda u: u == INT) if self.look(z)[2] and len(self.look(z)) > 3]
                    if c:
                        z = r.choice(c)
                        n, e = self.look(z)[3], (["id", z], z)
                if not self.spl and self.fault():
                    c = self.vars(lambda u: u == INT, True)
                    q = r.random()
                    if c and q < 0.5:
                        z = r.choice(c)[0]
                        e = (["id", z], z)
                    elif q < 0.8:
                        n, e = 0, (["int", 0], "0")
                    else:
                        n, e = -1, (["un", "-", ["int", 1]], "-1")
                dims.append((n, e))
        full = sized(t, [(n, e[0]) for n, e in dims])
        core = arr(t, [n for n, _ in dims])
        text = "%s %s%s" % (self.type_text(t), x, "".join("[%s]" % e[1] for _, e in dims))
        init = []
        const = False
        value = None
        if not self.spl and t in (INT, FLOAT):
            const = r.random() < 0.15
            if const or r.random() < 0.4:
                if dims:
                    total = 1
                    for n, _ in dims:
                        total *= max(n, 1)
                    m = r.randint(0, total)
                    if self.fault():
                        m = total + r.randint(1, 2)
                    es = [self.lit(r.choice([INT, t])) if glob or const else self.expr(t, 1) for _ in range(m)]
                    init, itext = ["list", [e[0] for e in es]], "{%s}" % ", ".join(e[1] for e in es)
                    if self.fault():
                        e = self.lit(t)
                        init, itext = ["one", e[0]], e[1]
                else:
                    if glob or const:
                        e = self.lit(t)
                        value = e[0][1] if e[0][0] == "int" else None
                        c = self.vars(lambda u: u == INT, True) if glob else []
                        if c and self.fault():
                            z = r.choice(c)[0]
                            e = (["id", z], z)
                            value = None
                    else:
                        e = self.expr(t, 2)
                    init, itext = ["one", e[0]], e[1]
                    if self.fault():
                        e2 = self.lit(t)
                        init, itext = ["list", [e[0], e2[0]]], "{%s, %s}" % (e[1], e2[1])
                text += " = " + itext
        elif self.spl and not dims and not glob and r.random() < 0.4:
            e = self.expr(t, 2)
            if e:
                init = ["one", e[0]]
                text += " = " + e[1]
        self.put(("const " if const else "") + text + ";", ["decl", x, full, int(const), init])
        fresh = x not in self.scopes[-1]
        if t[0] == "struct" and t[1] not in self.structs:
            t = core = ["bad"]
        if fresh:
            self.declare(x, core, const)
            if const and value and not dims:
                self.scopes[-1][x] = ("var", core, const, value)

    # -- statements
    def stmt(self, budget):
        r = self.r
        k = r.random()
        if self.fault():
            z = r.choice(["rvalue", "return", "jump", "cond", "const", "assign", "char", "shape"])
            if z == "shape" and self.shape():
                return
            if z == "char" and self.spl:
                t, u = r.choice([(CHAR, INT), (CHAR, FLOAT), (INT, CHAR), (FLOAT, CHAR)])
                p, b = self.place(t, 0, True), self.expr(u, 0)
                if p:
                    return self.put("%s = %s;" % (p[1], b[1]), ["expr", ["set", p[0], b[0]]])
            if z == "rvalue":
                t = r.choice([INT, FLOAT])
                a, b = self.expr(t, 2), self.expr(t, 1)
                if a[0][0] in ("bin", "int", "float", "call", "un") and a[0][0] != "id":
                    return self.put("%s = %s;" % (a[1], b[1]), ["expr", ["set", a[0], b[0]]])
            if z == "return" and self.ret:
                if self.spl or self.ret == VOID:
                    u = r.choice([x for x in [INT, FLOAT] + [["struct", s] for s in self.structs] if x != self.ret])
                    e = self.expr(u, 1)
                    if e:
                        return self.put("return %s;" % e[1], ["return", [e[0]]])
                else:
                    return self.put("return;", ["return", []])
            if z == "jump" and not self.spl and not self.loops:
                return self.put(r.choice(["break;", "continue;"]), ["jump"])
            if z == "cond":
                c = [(["id", x], x) for x, u in self.vars(lambda u: u[0] == "array" or (self.spl and u[0] in ("float", "struct")))]
                if c:
                    e = r.choice(c)
                    self.put("if (%s)" % e[1], ["cond", e[0]])
                    return self.simple()
            if z == "const" and not self.spl:
                c = []
                for x, u in self.vars():
                    if self.look(x)[2]:
                        for t in (INT, FLOAT):
                            self.walk(["id", x], x, u, t, 1, c)
                if c:
                    e, x = r.choice(c)
                    b = self.expr(INT, 1)
                    q = r.random()
                    if q < 0.5:
                        return self.put("%s = %s;" % (x, b[1]), ["expr", ["set", e, b[0]]])
                    if q < 0.8:
                        return self.put("%s += %s;" % (x, b[1]), ["expr", ["opset", "+", e, b[0]]])
                    return self.put("%s++;" % x, ["expr", ["opset", "+", e, ["int", 1]]])
            if z == "assign":
                c = [x for x, u in self.vars(lambda u: u[0] == "array" and u[2])]     # not int x[]: C allows to assign those
                if c:
                    x = r.choice(c)
                    b = r.choice([(["id", y], y) for y in c] + [self.lit(INT)])
                    return self.put("%s = %s;" % (x, b[1]), ["expr", ["set", ["id", x], b[0]]])
            self.faults += 1
        if k < 0.5 or budget <= 0:
            return self.simple()
        if k < 0.65:
            e = self.expr(INT, 2)
            self.put("if (%s)" % e[1], ["cond", e[0]])
            self.block(budget - 1, "block")
            if r.random() < 0.4:
                self.put("else")
                self.block(budget - 1, "block")
            return
        if k < 0.78:
            e = self.expr(INT, 2)
            if r.random() < 0.2:
                self.put("while (%s)" % e[1], ["cond", e[0]], ["open", "bare"])
                self.loops += 1
                self.simple()
                self.loops -= 1
                self.items.append(["close"])
                return
            self.put("while (%s)" % e[1], ["cond", e[0]])
            return self.block(budget - 1, "loop")
        if k < 0.9:
            return self.block(budget - 1, "block")
        if not self.spl and self.loops:
            return self.put(r.choice(["break;", "continue;"]), ["jump"])
        if self.ret == VOID:
            return self.put("return;", ["return", []])
        e = self.expr(self.ret, 2)
        if e:
            self.put("return %s;" % e[1], ["return", [e[0]]])

    def shape(self):
        """a call with an array declared for it: one size, the order of the sizes or the elements differ"""
        r = self.r
        c = [(x, v, i) for x, v in self.funs(lambda u: True) if x not in self.builtins for i, p in enumerate(v[2]) if p[0] == "array"]
        if not c:
            return False
        f, v, i = r.choice(c)
        call = self.call(f, 1)
        ts = call and [self.show(e) for e in call[0][2]]
        if not call or None in ts:
            return False
        ds, t = [n or r.randint(1, 3) for n in dims_of(v[2][i])], scalar(v[2][i])
        k = r.random()
        if k < 0.5:
            j = r.randrange(len(ds)) if r.random() < 0.5 else len(ds) - 1
            ds[j] = max(1, ds[j] + r.choice([-1, 1, 1, 2]))
        elif k < 0.65:
            ds = ds[::-1]
        elif k < 0.8:
            ds = ds[1:] or ds + [2] * self.spl           # SysY: a[2][3] decays to int x[], too
        else:
            t = FLOAT if t == INT else INT
        x = self.name("abcxyz")
        self.put("{", ["open", "block"])
        self.depth += 1
        self.put("%s %s%s;" % (self.type_text(t), x, "".join("[%d]" % n for n in ds)),
                 ["decl", x, sized(t, [(n, ["int", n]) for n in ds]), 0, []])
        js = list(call[0][2])
        js[i], ts[i] = ["id", x], x
        self.put("%s(%s);" % (f, ", ".join(ts)), ["expr", ["call", f, js]])
        self.depth -= 1
        self.put("}", ["close"])
        return True

    def simple(self):
        r = self.r
        k = r.random()
        if k < 0.55:
            t = self.any_type()
            p = self.place(t, 1, True)
            b = self.expr(t, 3)
            if p and b:
                return self.put("%s = %s;" % (p[1], b[1]), ["expr", ["set", p[0], b[0]]])
        if k < 0.65 and not self.spl:
            p = self.place(r.choice([INT, FLOAT]), 1, True)
            if p:
                b = self.expr(r.choice([INT, FLOAT]), 1)
                o = r.choice("+-*")
                return self.put("%s %s= %s;" % (p[1], o, b[1]), ["expr", ["opset", o, p[0], b[0]]])
        if k < 0.9:
            f = self.funs(lambda u: True)
            c = self.call(r.choice(f)[0], 2)
            if c:
                return self.put(c[1] + ";", ["expr", c[0]])
        if self.fault():
            b = self.bad(INT, 1)
            if b:
                return self.put(b[1] + ";", ["expr", b[0]])
            self.faults += 1
        e = self.expr(INT, 2)
        self.put("%s;" % e[1], ["expr", e[0]])

    def block(self, budget, kind):
        self.put("{", ["open", kind])
        self.depth += 1
        self.loops += kind == "loop"
        self.scopes.append({})
        self.body(budget)
        self.leave()
        self.loops -= kind == "loop"
        self.depth -= 1
        self.put("}", ["close"])

    def leave(self):
        self.old += [x for x in self.scopes.pop()]

    def body(self, budget):
        r = self.r
        if self.spl:
            for _ in range(r.randint(0, 3)):
                self.decl()
            for _ in range(r.randint(1, 4)):
                self.stmt(budget)
        else:
            for _ in range(r.randint(1, 6)):
                if r.random() < 0.35:
                    self.decl()
                else:
                    self.stmt(budget)

    def struct(self):
        r = self.r
        s = self.name("S")
        if self.structs and self.fault():
            s = r.choice(list(self.structs))
        fs, text = [], []
        for _ in range(r.randint(1, 4)):
            m = r.choice(["p", "q", "r", "s", "t"]) + str(len(fs))
            t = CHAR if r.random() < 0.06 else self.any_type()
            d = [r.randint(1, 4)] if r.random() < 0.25 and t != CHAR else []
            fs.append([m, arr(t, d)])
            text.append("%s %s%s;" % (self.type_text(t), m, "".join("[%d]" % n for n in d)))
        self.put("struct %s { %s };" % (s, " ".join(text)), ["struct", s, fs])
        self.structs.setdefault(s, fs)

    def function(self, name=None, ret=None, params=None):
        r = self.r
        f = name or self.name("fgh")
        if f in self.later:
            self.later.remove(f)
        ret = ret or (CHAR if self.spl and r.random() < 0.05 else self.any_type())
        if not self.spl and not name and r.random() < 0.3:
            ret = VOID
        ps, text = [], []
        for _ in range(r.randint(0, 4) if params is None else 0):
            x = self.name("abcxyz")
            if r.random() < 0.1:
                g = [n for n, v in self.scopes[0].items() if v[0] == "var"] + self.old
                if g:
                    x = r.choice(g)
            if x in [n for n, _ in ps]:
                continue
            if ps and self.fault():
                x = r.choice(ps)[0]
            t = CHAR if self.spl and r.random() < 0.06 else self.any_type()
            d = []
            if t != CHAR and r.random() < 0.3:
                d = [r.randint(1, 4) for _ in range(r.choice([1, 1, 2]))] if self.spl else [0] + [r.randint(1, 4)] * (r.random() < 0.3)
            ps.append([x, arr(t, d)])
            text.append("%s %s%s" % (self.type_text(t), x, "".join("[%s]" % (n or "") for n in d)))
        if self.fault():
            c = [n for n, v in self.scopes[0].items() if v[0] == "fun" and n not in self.builtins]
            if c:
                f = r.choice(c)
            else:
                self.faults += 1
        again = f in self.scopes[0]
        self.put("%s %s(%s)" % (self.type_text(ret), f, ", ".join(text)), ["func", f, ret, ps])
        saved = self.faults
        if again:
            self.faults = 0
        else:
            self.scopes[0][f] = ("fun", ret, [t for _, t in ps])
        self.put("{")
        self.depth, self.ret = 1, ret
        self.scopes.append({})
        for x, t in ps:
            self.declare(x, t)
        self.body(2)
        if ret != VOID:
            e = self.expr(ret, 2)
            if e:
                self.put("return %s;" % e[1], ["return", [e[0]]])
        self.leave()
        self.depth, self.ret = 0, None
        self.put("}", ["endfunc"])
        if again:
            self.faults = saved

    def program(self):
        r = self.r
        n = r.randint(2, 4)
        self.later = [self.name("fgh") for _ in range(n)]
        for f in list(self.later):
            if self.spl:
                while r.random() < 0.45:
                    self.struct()
            while r.random() < (0.4 if self.spl else 0.6):
                self.decl()
            self.function(f)
        self.function("main", INT, [])
        return dict(source="\n".join(self.lines) + "\n", items=self.items, strict=int(self.spl), builtins=self.builtins)


def text_faults(r, g):
    """faults of the text of statements: unknown lexemes, comments that do not end, missing punctuation"""
    kinds = {}
    for i in g.items:
        if i[0] in ("expr", "return"):
            kinds[i[1]] = i[0]
    lines = [n for n in kinds if re.match(r"\s*[\w{}]", g.lines[n])]         # what follows starts with a word or a brace
    out = []
    for n in r.sample(lines, min(len(lines), r.choice([1, 1, 1, 2]))):
        t = g.lines[n - 1]
        k = r.choice(["lexeme", "lexeme", "comment", "semi", "semi", "paren", "bracket", "operator"])
        if k == "lexeme":
            c = list(re.finditer(r"(?<![\w.'])\d+(?![\w.'])", t))
            if not c:
                continue
            m = r.choice(c)
            bad = r.choice(["08", "0x", "1e", "3y", "0xg", "7_", "@", "$", "`", "12ab"])
            t = t[:m.start()] + bad + t[m.end():]
        elif k == "operator":
            c = list(re.finditer(r" (\+|-|\*|/|<|>|<=|>=|==|!=|&&|\|\||=) ", t))
            if not c:
                continue
            m = r.choice(c)
            t = t[:m.start()] + r.choice([" @ ", " $ ", " ` ", " \\ "]) + t[m.end():]
            k = "lexeme"
        elif k == "comment":
            if out:
                continue
            t = t + r.choice([" /* open", "/*", "/* * /", " /*/"])
        elif k == "semi":
            t = t[:-1]
        else:
            m = r.choice([x for x in re.finditer(r"\)" if k == "paren" else r"\]", t)] or [None])
            if m is None or m.end() != len(t) - 1 and k == "paren":
                continue
            t = t[:m.start()] + t[m.end():]
        out.append((n, k, t))
        if k == "comment":
            break
    if any(k == "comment" for _, k, _ in out):            # hides what follows
        out = [x for x in out if x[1] == "comment"]
    for n, k, t in out:
        g.lines[n - 1] = t
    g.items[:0] = [["text", n, k] for n, k, _ in sorted(out)]


def program(seed, dialect):
    r = random.Random("faults %d" % seed)
    g = Gen(seed, dialect, r.choice([0, 0, 1, 1, 1, 1, 2, 3]) if dialect == "spl" else r.choice([0, 1, 1, 1]))
    g.rate = r.choice([0.02, 0.05, 0.12])
    if r.random() < 0.15:
        p = g.program()
        text_faults(r, g)
        p["source"] = "\n".join(g.lines) + "\n"
        return p
    return g.program()
