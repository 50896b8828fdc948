"""Deterministic enumeration of how operators bind: every pair of binary operators in both groupings, unary
operators and ?: beside every binary operator, compound and chained assignments; printed with the fewest
parentheses the language allows, on operands (read at run time) for which the two groupings differ."""
import random
from . import ast as A

IMAX, IMIN = 2 ** 31 - 1, -2 ** 31


class Undef(Exception):
    pass


def ev(e, env):
    """value of a tree; Undef when it has none (only to choose operands: the specification decides)"""
    k = e[0]
    if k == "v":
        return env[e[1]]
    if k == "u":
        x = ev(e[2], env)
        v = {"-": -x, "!": int(not x), "~": ~x, "+": x}[e[1]]
    elif k == "?":
        v = ev(e[2], env) if ev(e[1], env) else ev(e[3], env)
    elif k == "b":
        o = e[1]
        x = ev(e[2], env)
        if o in ("&&", "||"):
            return int(bool(ev(e[3], env))) if bool(x) == (o == "&&") else int(bool(x))
        y = ev(e[3], env)
        if o in "/%":
            if y == 0 or (x == IMIN and y == -1):
                raise Undef
            q = abs(x) // abs(y)
            q = q if (x < 0) == (y < 0) else -q
            v = q if o == "/" else x - q * y
        elif o in ("<<", ">>"):
            if not 0 <= y < 31 or x < 0:
                raise Undef
            v = x << y if o == "<<" else x >> y
        else:
            v = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                 "<": lambda: int(x < y), "<=": lambda: int(x <= y), ">": lambda: int(x > y), ">=": lambda: int(x >= y),
                 "==": lambda: int(x == y), "!=": lambda: int(x != y)}[o]()
    if not IMIN <= v <= IMAX:
        raise Undef
    return v


def tree(e):
    """the abstract expression"""
    k = e[0]
    if k == "v":
        return A.V(e[1])
    if k == "u":
        return A.U(e[1], tree(e[2]))
    if k == "?":
        return A.COND(*(tree(x) for x in e[1:]))
    x, y = tree(e[2]), tree(e[3])
    return A.AND(x, y) if e[1] == "&&" else A.OR(x, y) if e[1] == "||" else A.B(e[1], x, y)


def ops_of(e):
    return {"?"} | set().union(*(ops_of(x) for x in e[1:])) if e[0] == "?" else {e[1]} | set().union(*(ops_of(x) for x in e[2:])) if e[0] in "ub" else set()


def cases(ops, unary, rng):
    a, b, c, d = (("v", x) for x in "abcd")
    B = lambda o, x, y: ("b", o, x, y)
    for o in ops:
        for p in ops:
            l, r = B(p, B(o, a, b), c), B(o, a, B(p, b, c))
            yield l, r
            yield r, l
        for u in unary:
            yield B(o, ("u", u, a), b), ("u", u, B(o, a, b))
            yield ("u", u, B(o, a, b)), B(o, ("u", u, a), b)
            yield B(o, a, ("u", u, b)), None
        s, t = ("?", B(o, a, b), c, d), B(o, a, ("?", b, c, d))
        yield s, t
        yield t, s
        s, t = ("?", a, b, B(o, c, d)), B(o, ("?", a, b, c), d)
        yield s, t
        yield t, s
        yield ("?", a, B(o, b, c), d), None
    for u in unary:
        for w in unary:
            if u != w or u in "!~":
                yield ("u", u, ("u", w, a)), None
        s, t = ("?", ("u", u, a), b, c), ("u", u, ("?", a, b, c))
        yield s, t
        yield t, s
    s, t = ("?", a, b, ("?", c, d, a)), ("?", ("?", a, b, c), d, a)
    yield s, t
    yield t, s
    yield ("?", a, ("?", b, c, d), b), None
    leaf = lambda: rng.choice([a, b, c, d])
    for _ in range(240):
        es = [leaf() for _ in range(4)]
        while len(es) > 1:
            i = rng.randrange(len(es) - 1)
            es[i:i + 2] = [B(rng.choice(ops), es[i], es[i + 1])]
        yield es[0], None


def operands(e, other, rng):
    best = None
    for k in range(40):
        env = {x: rng.choice((rng.randint(0, 9), rng.randint(-9, 20), rng.choice((0, 1, 2, 6, 12, 255)))) for x in "abcd"}
        try:
            v = ev(e, env)
        except Undef:
            continue
        best = best or env
        if other is None:
            return env
        try:
            if ev(other, env) != v:
                return env
        except Undef:
            return env
    return best


def programs(lang, prefix, seed=0, rows=56):
    rng = random.Random("%s %d" % (lang, seed))
    spl = lang == "spl"
    ops = ["*", "/", "%", "+", "-", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||"] + ([] if spl else ["<<", ">>"])
    pr = A.Printer()
    items = []
    for e, other in cases(ops, "-!~" if spl else "-!~+", rng):
        env = operands(e, other, rng)
        if env:
            items.append((e, env, ""))
    for o in ["", "+", "-", "*", "/"] + ([] if spl else ["%"]):
        for p in ops:
            e = ("b", p, ("v", "b"), ("v", "c"))
            env = operands(("b", o or "+", ("v", "a"), e), None, rng)
            if env:
                items.append((e, env, "=" + o))
        for p in ("", "+", "-"):        # chained: the right one first
            for _ in range(2):
                env = {x: rng.randint(1, 9) for x in "abcd"}
                if not (o in "/%" and o and {"": env["c"], "+": env["b"] + env["c"], "-": env["b"] - env["c"]}[p] == 0):
                    items.append((("v", "c"), env, "=%s=%s" % (o, p)))
    tac_ops = {"*", "/", "+", "-", "<", "<=", ">", ">=", "==", "!=", "&&", "||", "!", "?"}
    easy = [x for x in items if spl and ops_of(x[0]) <= tac_ops]
    hard = [x for x in items if not (spl and ops_of(x[0]) <= tac_ops)]
    out = []
    get, put = ("read", "write") if spl else ("getint", "putint")
    for group, tacable in ((easy, True), (hard, False)):
        for g in [group[i::-(-len(group) // rows)] for i in range(-(-len(group) // rows))] if group else []:
            text, body, inp = ["int main() {", "    int a = 0; int b = 0; int c = 0; int d = 0;"], [A.D("i", x, [], A.E(A.N(0))) for x in "abcd"], []
            shows = []
            for e, env, form in g:
                for x in "abcd":
                    text.append("    %s = %s();" % (x, get))
                    body.append(A.ASG(x, [], A.C(get, [])))
                    inp.append(env[x])
                t = tree(e)
                if not form:
                    x = t
                elif form.count("=") == 1:
                    x = A.SET(A.AD("a"), t, form[1:])
                else:
                    _, o, p = form.split("=")
                    x = A.SET(A.AD("a"), A.SET(A.AD("b"), t, p), o)
                shows = [x] if not form else [A.V("a"), A.V("b")]
                if form:
                    text.append("    %s;" % pr.e(x, -1))
                    body.append(A.E(x))
                for y in shows:
                    text.append("    %s(%s);" % (put, pr.e(y)))
                    body.append(A.E(A.C(put, [y])))
                    if not spl:
                        text.append("    putch(32);")
                        body.append(A.E(A.C("putch", [A.N(32)])))
            text += ["    return 0;", "}"]
            body.append(A.RE(A.N(0)))
            p = dict(source="\n".join(text) + "\n", globals=[], funcs={"main": dict(ret="i", params=[], body=body)}, input=inp, maxSteps=20000)
            p["id"] = "%s%d" % (prefix, len(out))
            if spl:
                p.update(tac=tacable, tacable=tacable, dialect="spl")
            out.append(p)
    return out
