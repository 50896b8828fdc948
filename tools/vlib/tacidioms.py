"""Parameterised three-address programs, one template per way in which addresses, control flow and calls
combine.  The programs are only proposed: specs/TAC.tla decides whether they are defined and what they do."""
import random

REL = ("<", "<=", ">", ">=", "==", "!=")


class T:
    def __init__(s, r):
        s.r, s.out, s.nv, s.nl, s.inp = r, [], 0, 0, []

    def v(s):
        s.nv += 1
        return "v%d" % s.nv

    def l(s):
        s.nl += 1
        return "label%d" % s.nl

    def e(s, *lines):
        for x in lines:
            s.out.extend(y.strip() for y in x.split(";"))

    def let(s, t):
        q = s.v()
        s.e("%s := %s" % (q, t))
        return q

    def at(s, l):
        s.e("LABEL %s :" % l)

    def fn(s, name, params=()):
        s.e("FUNCTION %s :" % name)
        for p in params:
            s.e("PARAM " + p)

    def call(s, f, *args):
        for a in reversed(args):
            s.e("ARG " + a)
        return s.let("CALL " + f)

    def read(s, x):
        s.inp.append(x)
        q = s.v()
        s.e("READ " + q)
        return q

    def obj(s, n, init=True):
        o = s.v()
        s.e("DEC %s %d" % (o, 4 * n))
        for k in range(n) if init else ():
            t = s.let("&%s + #%d" % (o, 4 * k)) if k or s.r.random() < 0.5 else s.let("&" + o)
            s.e("*%s := #%d" % (t, s.r.randint(-9, 99)))
        return o

    def show(s, o, n):
        for k in range(n):
            t = s.let("&%s + #%d" % (o, 4 * k))
            s.e("%s := *%s" % (t, t), "WRITE " + t)

    def sum(s, a, b):
        return s.let("%s + %s" % ((a, b) if s.r.random() < 0.5 else (b, a)))

    def addr(s, o, k):
        """the address of word k of object o, spelled in some way"""
        p = s.r.random()
        if p < 0.3:
            return s.let("&%s + #%d" % (o, 4 * k))
        b = s.let("&" + o)
        if p < 0.6:
            return s.let("%s + #%d" % (b, 4 * k))
        if p < 0.75:
            s.e("%s := %s + #%d" % (b, b, 4 * k))
            return b
        if p < 0.9:
            c = s.let("#%d" % (4 * k))
            return s.sum(b, c)
        c = s.v()               # through memory
        s.e("DEC %s 4" % c, "%s := %s" % (c, s.let("&%s + #%d" % (o, 4 * k))))
        return s.let(c)

    def small(s, d, k=1000):
        q = s.let("%s / #%d" % (d, k))
        s.e("%s := %s * #%d" % (q, q, k), "%s := %s - %s" % (d, d, q))

    def work(s, acc, ptrs, ints, n):
        """n operations on the words the addresses point to"""
        for _ in range(n):
            p = s.r.choice(ptrs)
            k = s.r.random()
            if k < 0.4:
                t = s.let("*" + p)
                s.e("%s := %s %s %s" % (acc, acc, s.r.choice("++-"), t))
            elif k < 0.75:
                s.e("*%s := %s" % (p, s.r.choice(ints + ["#%d" % s.r.randint(-5, 50)])))
            else:
                t = s.let("*" + p)
                s.e("%s := %s %s %s" % (t, t, s.r.choice("+-"), s.r.choice(ints + ["#1", "#3"])), "*%s := %s" % (p, t))

    def loop(s, n, body, step=1, i=None):
        """counted loop in one of several shapes; body(i)"""
        a, b = s.l(), s.l()
        i = i or s.v()
        s.e("%s := #0" % i)
        k = s.r.random()
        if k < 0.5:
            s.at(a)
            s.e("IF %s >= %s GOTO %s" % (i, n, b))
            body(i)
            s.e("%s := %s + #%d" % (i, i, step), "GOTO " + a)
        elif k < 0.75:
            s.e("IF %s <= #0 GOTO %s" % (n, b))
            s.at(a)
            body(i)
            s.e("%s := %s + #%d" % (i, i, step), "IF %s < %s GOTO %s" % (i, n, a))
        else:
            s.e("GOTO " + b)
            c = s.l()
            s.at(a)
            body(i)
            s.e("%s := %s + #%d" % (i, i, step))
            s.at(b)
            s.e("IF %s %s %s GOTO %s" % (i, "<" if step > 1 else s.r.choice(("<", "<", "!=")), n, a))
            s.at(c)
        if k < 0.75:
            s.at(b)


def offsets(s):
    """an object reached through offsets that arrive as parameters"""
    n = s.r.choice((2, 4, 4, 6))
    off, cnt, acc = s.v(), s.v(), s.v()
    s.fn("f", [off, cnt])
    o = s.obj(n)
    known = [s.addr(o, s.r.randrange(n)) for _ in range(s.r.randint(1, 2))]
    k = s.r.random()
    if k < 0.4:
        q = s.sum(off, s.let("&" + o))
    elif k < 0.6:
        c = s.v()
        s.e("DEC %s 4" % c, "%s := %s" % (c, off))
        t = s.let(c)
        q = s.sum(t, s.let("&" + o))
    elif k < 0.8:
        t = s.let("%s / #4" % off)
        s.e("%s := #4 * %s" % (t, t))
        q = s.sum(s.let("&" + o), t)
    else:
        q = s.let("&%s + %s" % (o, off))
    s.e("%s := #0" % acc)
    ops = s.r.randint(2, 4)

    def body(i):
        s.work(acc, known + [q, q], [i, acc] if s.r.random() < 0.3 else [i], ops)
        s.small(acc)
    if s.r.random() < 0.7:
        s.loop(cnt, body)
    else:
        s.work(acc, known + [q, q], [cnt], ops + 2)
    s.show(o, n)
    s.e("RETURN " + acc)
    s.fn("main")
    for _ in range(3):
        a, b = s.read(4 * s.r.randrange(n)), s.read(s.r.choice((0, 1, 2, 5, 9)))
        s.e("WRITE " + s.call("f", a, b))
    s.e("RETURN #0")


def walk(s):
    """an address that advances through an object up to its end"""
    n = s.r.choice((3, 4, 6, 9, 16))
    s.fn("main")
    o = s.obj(n)
    back = s.r.random() < 0.3
    st = s.r.choice((1, 1, 1, 2)) if n % 2 == 0 else 1
    p = s.addr(o, n - st if back else 0)
    e = s.addr(o, 0 if back else n)
    acc = s.let("#%d" % s.r.randint(0, 5))
    a, b = s.l(), s.l()
    s.at(a)
    rel = s.r.choice(("<", "!=") if not back and st == 1 else ("<",))
    top = s.r.random() < 0.5
    if top:
        s.e("IF %s %s %s GOTO %s" % (p, {"<": ">=", "!=": "=="}[rel] if not back else "<", e, b))
    t = s.let("*" + p)
    s.e("%s := %s %s %s" % (acc, acc, s.r.choice("+-"), t))
    k = s.r.random()
    if k < 0.4:
        s.e("*%s := %s" % (p, acc))
    elif k < 0.7:
        q = s.let("%s + #%d" % (p, 4 * (st - 1)))
        s.e("*%s := %s" % (q, acc))
    s.e("%s := %s %s #%d" % (p, p, "-" if back else "+", 4 * st))
    s.e("GOTO " + a if top else "IF %s %s %s GOTO %s" % (p, ">=" if back else rel, e, a))
    s.at(b)
    s.e("WRITE " + acc)
    d = s.let("%s - %s" % (p, e))
    s.e("WRITE " + d)
    s.show(o, n)
    s.e("RETURN #0")


def permute(s):
    """variables exchange their values around a loop"""
    n = s.r.randint(2, 5)
    s.fn("main")
    c = s.read(s.r.choice((0, 1, 2, 5, 8)))
    vs = [s.read(s.r.randint(-50, 50)) for _ in range(n)]
    e = [s.let(x) for x in vs]

    def body(i):
        perm = list(range(n))
        s.r.shuffle(perm)
        t = [s.let(e[k]) for k in perm]
        if s.r.random() < 0.5:
            j = s.r.randrange(n)
            t[j] = s.let("%s + %s" % (t[j], i))
        for k in range(n):
            s.e("%s := %s" % (e[k], t[k]))
        if s.r.random() < 0.4:
            l = s.l()
            s.e("IF %s %s %s GOTO %s" % (e[0], s.r.choice(REL), e[-1], l))
            t = s.let(e[0])
            s.e("%s := %s" % (e[0], e[-1]), "%s := %s" % (e[-1], t))
            s.at(l)
    s.loop(c, body)
    for x in e + vs:
        s.e("WRITE " + x)
    s.e("RETURN #0")


def twoentries(s):
    """a loop that is entered in two places"""
    s.fn("main")
    x = s.read(s.r.randint(-3, 3))
    n = s.read(s.r.choice((0, 1, 4, 7)))
    o = s.obj(2)
    a = s.let("#0")
    i = s.let("#0")
    p = s.addr(o, 0)
    l1, l2, l3 = s.l(), s.l(), s.l()
    s.e("IF %s %s #0 GOTO %s" % (x, s.r.choice(REL), l2))
    s.at(l1)
    s.work(a, [p], [i, x], s.r.randint(1, 2))
    s.e("%s := %s + #%d" % (i, i, s.r.randint(1, 2)))
    s.e("IF %s > %s GOTO %s" % (i, n, l3))
    if s.r.random() < 0.4:
        s.e("%s := &%s + #4" % (p, o))
    s.at(l2)
    s.work(a, [p], [i, x, a] if s.r.random() < 0.2 else [i, x], s.r.randint(1, 3))
    s.e("%s := %s + #1" % (i, i))
    s.small(a)
    s.e("IF %s <= %s GOTO %s" % (i, n, l1))
    s.at(l3)
    s.e("WRITE " + a, "WRITE " + i)
    s.show(o, 2)
    s.e("RETURN #0")


def frames(s):
    """each activation has its own objects and hands their addresses on"""
    d, p = s.v(), s.v()
    s.fn("f", [d, p])
    o = s.obj(s.r.randint(1, 3))
    l = s.l()
    acc = s.let("#0")
    own = s.let("&" + o)
    s.work(acc, [p], [d], 1)
    s.e("IF %s <= #0 GOTO %s" % (d, l))
    m = s.let("%s - #1" % d)
    s.work(acc, [own, p], [d], s.r.randint(1, 2))
    x = s.call("f", m, s.r.choice((own, own, p)))
    s.e("%s := %s + %s" % (acc, acc, x))
    if s.r.random() < 0.4:
        x = s.call("f", s.let("%s - #2" % d), own)
        s.e("%s := %s - %s" % (acc, acc, x))
    s.work(acc, [own, p], [d, m], s.r.randint(1, 3))
    s.small(acc)
    s.at(l)
    s.e("WRITE " + acc, "RETURN " + acc)
    s.fn("main")
    o = s.obj(2)
    s.e("WRITE " + s.call("f", s.read(s.r.randint(0, 5)), s.addr(o, s.r.randrange(2))))
    s.show(o, 2)
    s.e("RETURN #0")


def chosen(s):
    """a function returns one of the addresses it is given"""
    a, b, c = s.v(), s.v(), s.v()
    s.fn("g", [a, b, c])
    l = s.l()
    s.e("IF %s %s #%d GOTO %s" % (c, s.r.choice(REL), s.r.randint(-1, 2), l), "RETURN " + a)
    s.at(l)
    s.e("RETURN " + (b if s.r.random() < 0.6 else s.let("%s + #4" % a)))
    s.fn("main")
    o, q = s.obj(2), s.obj(3)
    acc = s.let("#0")
    n = s.read(s.r.randint(1, 5))
    x = s.addr(o, 0)
    y = s.addr(q, s.r.randrange(3))

    def body(i):
        z = s.call("g", x, s.r.choice((y, x)), i)
        s.work(acc, [z, x, y], [i], s.r.randint(2, 4))
    s.loop(n, body)
    s.e("WRITE " + acc)
    s.show(o, 2)
    s.show(q, 3)
    s.e("RETURN #0")


def sort(s):
    """bubble or insertion sort of an object"""
    n = s.r.randint(3, 7)
    p, c = s.v(), s.v()
    s.fn("sort", [p, c])
    rel = s.r.choice(("<", "<=", ">", ">="))

    def outer(i):
        m = s.let("%s - #1" % c)
        if s.r.random() < 0.5:
            s.e("%s := %s - %s" % (m, m, i))

        def inner(j):
            w = s.let("%s * #4" % j)
            a = s.sum(p, w)
            b = s.let("%s + #4" % a)
            x, y, l = s.let("*" + a), s.let("*" + b), s.l()
            s.e("IF %s %s %s GOTO %s" % (x, rel, y, l), "*%s := %s" % (a, y), "*%s := %s" % (b, x))
            s.at(l)
        s.loop(m, inner)
    s.loop(c, outer)
    s.e("RETURN #0")
    s.fn("main")
    o = s.obj(n, False)
    for k in range(n):
        s.e("*%s := %s" % (s.addr(o, k), s.read(s.r.randint(-20, 20))))
    s.call("sort", s.let("&" + o), s.let("#%d" % n))
    s.show(o, n)
    s.e("RETURN #0")


def machine(s):
    """a state machine written with jumps"""
    k = s.r.randint(3, 6)
    s.fn("main")
    st, fuel, acc = s.let("#0"), s.let("#%d" % s.r.choice((6, 15, 30))), s.let("#1")
    x = s.read(s.r.randint(-9, 9))
    ls = [s.l() for _ in range(k)]
    d, end = s.l(), s.l()
    s.at(d)
    s.e("%s := %s - #1" % (fuel, fuel), "IF %s < #0 GOTO %s" % (fuel, end))
    for j in s.r.sample(range(k), k):
        s.e("IF %s == #%d GOTO %s" % (st, j, ls[j]))
    s.e("GOTO " + end)
    for j in s.r.sample(range(k), k):
        s.at(ls[j])
        s.e("%s := %s %s %s" % (acc, acc, s.r.choice("+-*"), s.r.choice((x, "#%d" % s.r.randint(1, 5)))))
        s.small(acc, s.r.choice((100, 1000, 64)))
        if s.r.random() < 0.6:
            l = s.l()
            s.e("IF %s %s %s GOTO %s" % (acc, s.r.choice(REL), s.r.choice((x, "#0", "#10")), l))
            s.e("%s := #%d" % (st, s.r.randrange(k)), "GOTO " + (d if s.r.random() < 0.6 else ls[s.r.randrange(k)]) if s.r.random() < 0.7 else "%s := #%d" % (st, s.r.randrange(k)))
            if not s.out[-1].startswith("GOTO"):
                s.e("GOTO " + d)
            elif s.out[-1] != "GOTO " + d:
                s.out[-1] = "GOTO " + d
            s.at(l)
        if s.r.random() < 0.3:
            s.e("WRITE " + acc)
        s.e("%s := #%d" % (st, s.r.randrange(k + 1)), "GOTO " + d)
    s.at(end)
    s.e("WRITE " + acc, "WRITE " + st, "RETURN #0")


def linked(s):
    """a list whose cells hold the address of the next one"""
    n = s.r.randint(2, 5)
    p, x = s.v(), s.v()
    s.fn("walk", [p, x])
    acc = s.let("#0")
    a, b = s.l(), s.l()
    s.at(a)
    s.e("IF %s == #0 GOTO %s" % (p, b))
    q = s.let("%s + #4" % p)
    s.work(acc, [q], [x], s.r.randint(1, 3))
    s.e("%s := *%s" % (p, p), "GOTO " + a)
    s.at(b)
    s.e("RETURN " + acc)
    s.fn("main")
    o = [s.obj(2, False) for _ in range(n)]
    order = s.r.sample(range(n), n)
    for j, k in enumerate(order):
        s.e("*%s := %s" % (s.addr(o[k], 1), s.read(s.r.randint(-9, 30))))
        if j + 1 < n:
            s.e("*%s := %s" % (s.let("&" + o[k]), s.let("&" + o[order[j + 1]])))
        else:
            s.e("*%s := #0" % s.let("&" + o[k]))
    h = s.let("&" + o[order[0]])
    s.e("WRITE " + s.call("walk", h, s.read(s.r.randint(1, 9))))
    if s.r.random() < 0.6 and n > 2:      # unlink the second cell
        t = s.let("*" + h)
        u = s.let("*" + t)
        s.e("*%s := %s" % (h, u))
    s.e("WRITE " + s.call("walk", h, s.let("#2")))
    for k in range(n):
        t = s.let("&%s + #4" % o[k])
        s.e("%s := *%s" % (t, t), "WRITE " + t)
    s.e("RETURN #0")


def table(s):
    """an object of addresses"""
    n = s.r.randint(2, 4)
    s.fn("main")
    o = [s.obj(2) for _ in range(n)]
    t = s.v()
    s.e("DEC %s %d" % (t, 4 * n))
    for k in range(n):
        s.e("*%s := %s" % (s.addr(t, k), s.addr(o[s.r.randrange(n)], s.r.randrange(2))))
    acc = s.let("#0")
    c = s.let("#%d" % n)

    def body(i):
        w = s.let("%s * #4" % i)
        q = s.sum(s.let("&" + t), w)
        p = s.let("*" + q)
        s.work(acc, [p, s.addr(o[0], 0)], [i], s.r.randint(2, 4))
        if s.r.random() < 0.4:
            s.e("*%s := %s" % (s.addr(t, s.r.randrange(n)), s.let("*" + q)))
    s.loop(c, body)
    s.e("WRITE " + acc)
    for x in o:
        s.show(x, 2)
    s.e("RETURN #0")


def many(s):
    """many arguments, permuted from call to call"""
    n = s.r.randint(3, 11)
    ps = [s.v() for _ in range(n)]
    s.fn("f", ps)
    l = s.l()
    s.e("IF %s > #0 GOTO %s" % (ps[0], l))
    acc = s.let("#0")
    for k, p in enumerate(ps):
        t = s.let("%s * #%d" % (p, k + 1))
        s.e("%s := %s + %s" % (acc, acc, t))
    s.small(acc)
    s.e("RETURN " + acc)
    s.at(l)
    m = s.let("%s - #1" % ps[0])
    perm = ps[1:]
    s.r.shuffle(perm)
    if s.r.random() < 0.4 and len(perm) > 1:
        perm[0] = s.let("%s + %s" % (perm[0], perm[1]))
        s.small(perm[0], 100)
    x = s.call("f", m, *perm)
    if s.r.random() < 0.4:
        y = s.call("f", s.let("%s - #2" % ps[0]), *reversed(perm))
        s.e("%s := %s - %s" % (x, x, y))
    if s.r.random() < 0.6:
        s.e("%s := %s + %s" % (x, x, s.r.choice(ps)))
    s.small(x)
    s.e("RETURN " + x)
    s.fn("main")
    a = [s.read(s.r.randint(0, 4))] + [s.read(s.r.randint(-30, 30)) for _ in range(n - 1)]
    s.e("WRITE " + s.call("f", *a))
    s.e("WRITE " + s.call("f", *([s.let("#1")] + a[:0:-1])))
    s.e("RETURN #0")


def matrix(s):
    """two-dimensional addressing with computed row addresses"""
    h, w = s.r.randint(2, 4), s.r.randint(2, 5)
    s.fn("main")
    o = s.obj(h * w, False)
    H, W = s.let("#%d" % h), s.let("#%d" % w)
    base = s.let("&" + o)
    c = s.read(s.r.randint(-5, 9))

    def elem(i, j):
        if s.r.random() < 0.5:
            t = s.let("%s * #%d" % (i, w))
            s.e("%s := %s + %s" % (t, t, j), "%s := #4 * %s" % (t, t))
            return s.sum(base, t)
        t = s.let("%s * #%d" % (i, 4 * w))
        row = s.sum(base, t)
        u = s.let("%s * #4" % j)
        return s.sum(row, u)

    def fill(i):
        def inner(j):
            q = elem(i, j)
            t = s.let("%s %s %s" % (i, s.r.choice("+-*"), j))
            s.e("%s := %s + %s" % (t, t, c), "*%s := %s" % (q, t))
        s.loop(W, inner)
    s.loop(H, fill)
    acc = s.let("#0")

    def use(i):
        def inner(j):
            q = elem(i, j)
            t = s.let("*" + q)
            s.e("%s := %s %s %s" % (acc, acc, s.r.choice("+-"), t))
            if s.r.random() < 0.5:
                s.e("*%s := %s" % (elem(i, s.let("#%d" % s.r.randrange(w))), s.r.choice((acc, i, c))))
            s.small(acc)
        s.loop(W, inner)
    s.loop(H, use)
    s.e("WRITE " + acc)
    s.show(o, h * w)
    s.e("RETURN #0")


def merged(s):
    """an address that is one of two depending on a condition, inside a loop"""
    s.fn("main")
    n = s.r.randint(2, 3)
    o, q = s.obj(n), s.obj(n)
    c = s.read(s.r.choice((0, 1, 3, 6)))
    x = s.read(s.r.randint(-2, 4))
    acc = s.let("#0")
    p = s.addr(o, 0)
    fixed = [s.addr(o, s.r.randrange(n)), s.addr(q, s.r.randrange(n))]

    def body(i):
        l, m = s.l(), s.l()
        s.e("IF %s %s %s GOTO %s" % (s.r.choice((i, x, acc)), s.r.choice(REL), s.r.choice((x, "#1", "#2")), l))
        s.e("%s := &%s + #%d" % (p, o, 4 * s.r.randrange(n)))
        if s.r.random() < 0.5:
            s.e("GOTO " + m)
            s.at(l)
            s.e("%s := &%s + #%d" % (p, s.r.choice((o, q)), 4 * s.r.randrange(n)))
            s.at(m)
        else:
            s.at(l)
        s.work(acc, fixed + [p, p], [i], s.r.randint(2, 5))
        s.small(acc)
    s.loop(c, body)
    s.e("WRITE " + acc)
    s.show(o, n)
    s.show(q, n)
    s.e("RETURN #0")


def escaping(s):
    """a callee reaches an object through an address stored in memory"""
    a, x = s.v(), s.v()
    s.fn("g", [a, x])
    p = s.let("*" + a)
    acc = s.let("#0")
    s.work(acc, [p], [x], s.r.randint(1, 3))
    if s.r.random() < 0.5:
        t = s.let("%s + #4" % a)
        u = s.let("*" + t)
        s.e("*%s := %s" % (a, u), "*%s := %s" % (t, p))
    s.e("RETURN " + acc)
    s.fn("main")
    o = s.obj(3)
    c = s.v()
    s.e("DEC %s 8" % c)
    s.e("*%s := %s" % (s.addr(c, 0), s.addr(o, s.r.randrange(3))))
    s.e("*%s := %s" % (s.addr(c, 1), s.addr(o, s.r.randrange(3))))
    n = s.read(s.r.randint(0, 4))
    acc = s.let("#0")
    q = s.addr(o, s.r.randrange(3))
    box = s.let("&" + c)

    def body(i):
        s.work(acc, [q], [i], s.r.randint(1, 2))
        y = s.call("g", box, i)
        s.e("%s := %s + %s" % (acc, acc, y))
        s.work(acc, [q], [i], s.r.randint(0, 2))
    s.loop(n, body)
    s.e("WRITE " + acc)
    s.show(o, 3)
    s.e("RETURN #0")


def numbers(s):
    """arithmetic of a loop counter with constants near the limits of what a target can encode"""
    s.fn("main")
    c = s.let("#%d" % s.r.choice((3, 8, 17)))
    x = s.read(s.r.choice((0, 1, -1, 5, -70, 32767, 32768, 65535, 70000)))
    vs = [s.let("#%d" % s.r.randint(-3, 3)) for _ in range(3)]

    def body(i):
        for _ in range(s.r.randint(2, 4)):
            d = s.r.choice(vs)
            k = s.r.choice((1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 31, 64, 100, 127, 255, 1000))
            y = s.r.choice(vs + [i, x])
            f = s.r.random()
            if f < 0.3:
                s.e("%s := %s * #%d" % (d, y, s.r.choice((k, -k))))
            elif f < 0.55:
                s.e("%s := %s / #%d" % (d, y, s.r.choice((k, k, -k))))
            elif f < 0.7:
                s.small(d, k if k > 1 else 2)
            else:
                s.e("%s := %s %s %s" % (d, d, s.r.choice("+-"), s.r.choice((y, "#%d" % s.r.choice((32767, 32768, -32768, -32769, 65535, 4096, 1))))))
            s.small(d, s.r.choice((1000, 4096, 99999)))
        l = s.l()
        s.e("IF %s %s %s GOTO %s" % (s.r.choice(vs), s.r.choice(REL), s.r.choice(vs + ["#0", "#-1", "#100"]), l), "WRITE " + s.r.choice(vs))
        s.at(l)
    s.loop(c, body)
    for v in vs:
        s.e("WRITE " + v)
    s.e("RETURN #0")


ALL = [offsets, walk, permute, twoentries, frames, chosen, sort, machine, linked, table, many, matrix, merged, escaping, numbers]


def program(name, seed):
    s = T(random.Random("%s %d" % (name, seed)))
    next(f for f in ALL if f.__name__ == name)(s)
    return dict(source="\n".join(s.out) + "\n", input=s.inp, maxSteps=6000, addresses=True)


def programs(seed, share):
    for f in ALL:
        for i in range(share * (3 if f in (offsets, merged, escaping) else 1)):
            p = program(f.__name__, seed + i)
            p["id"] = "%s_%d" % (f.__name__, i)
            yield p
