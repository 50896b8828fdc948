"""Rewrites a program into one with the same meaning that uses assignments, ++, -- and the
comma as expressions.  The specification judges the rewritten program, so a slip here only
changes which program is tested."""
from .ast import *


def uses(e, name):
    return e == name or (isinstance(e, list) and any(uses(x, name) for x in e))


def setter(r, s):
    """an assignment statement as an expression, or None"""
    name, ix = s[1]
    op, e = s[2], s[3]
    if any(imp(i) for i in ix):
        return None
    lv = AD(name, ix)
    here = IX(name, ix) if ix else V(name)
    if op == "" and not ix and e[0] in "bB" and e[1] in ("+", "-") and e[2] == here and e[3] == ["n", 1]:
        return SET(lv, N(1), r.choice(["pre", "post"]) + e[1])
    if op in ("+", "-") and e == ["n", 1]:
        return SET(lv, N(1), r.choice(["pre", "post"]) + op)
    if op == "" and e[0] == "b" and e[1] in "+-*&|^" and e[2] == here and r.random() < .7:
        return SET(lv, e[3], e[1])
    return SET(lv, e, op)


def stmts(r, prob, ss):
    out = []
    for s in ss:
        s = stmt(r, prob, s)
        if out and out[-1][0] == "=" and r.random() < prob:
            a = setter(r, out[-1])
            name = out[-1][1][0]
            if a and s[0] == "if":
                out[-1] = ["if", B(",", a, s[1])] + s[2:]
                continue
            if a and s[0] == "re" and len(s) > 1:
                out[-1] = RE(B(",", a, s[1]))
                continue
            if a and s[0] == "=" and not s[2] and not any(imp(i) for i in s[1][1]) and not uses(s[1], name):
                if s[3] == V(name) and not out[-1][1][1] and not out[-1][2] and a[1] == "$":
                    out[-1] = ["=", s[1], "", a]                 # y = x = e
                else:
                    out[-1] = ["=", s[1], s[2], B(",", a, s[3])]
                continue
            if a and s[0] == "e" and s[1][0] == "C" and s[1][1] == "putint":
                v = s[1][2][0]
                out[-1] = E(C("putint", [a if v == V(name) and not out[-1][1][1] and a[1][:5] != "$post" else B(",", a, v)]))
                continue
            if a and s[0] == "e":
                out[-1] = E(B(",", a, s[1])) if s[1][0] != "C" or s[1][1][0] == "$" else out[-1]
                if out[-1][0] == "e":
                    continue
        out.append(s)
    return [E(setter(r, s) or C("putch", [N(32)])) if s[0] == "=" and setter(r, s) and r.random() < prob else s for s in out]


def stmt(r, prob, s):
    t = s[0]
    if t == "bl":
        return BL(stmts(r, prob, s[1]))
    if t == "if":
        return ["if", s[1]] + [stmt(r, prob, x) for x in s[2:]]
    if t == "wh":
        return WH(s[1], stmt(r, prob, s[2]))
    if t == "do":
        return DO(stmt(r, prob, s[1]), s[2])
    if t == "for":
        step = s[3]
        if step[0] == "=" and r.random() < prob:
            step = E(setter(r, step) or SET(AD(step[1][0], step[1][1]), step[3], step[2]))
        return FOR(s[1], s[2], step, stmt(r, prob, s[4]))
    return s


def extend(p, r, prob=0.5):
    p["funcs"] = {n: dict(f, body=stmts(r, prob, f["body"])) for n, f in p["funcs"].items()}
    return p
