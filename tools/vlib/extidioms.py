"""Idiom templates of the language extensions: assignments, ++ and -- and the comma as
expressions, do-while, goto.  Every expression is defined by the rules of C as well (no
variable is modified twice, or modified and read, without a sequence point in between)."""
from .idioms import cst, pick

EXT = []


def ext(f):
    EXT.append(f)
    return f


@ext
def countdown(r):
    c = pick(r, "n--", "--n > 0", "n-- > %d" % r.randint(0, 2), "(n -= 1) > 0", "(n = n - 2) > 0", "n-- && s < 60000", "s++ < 50 && n-- > 0", "--n >= 0 || k++ < 3")
    b = pick(r, "s += n;", "s += n * k;", "s = s * 2 %% 1009 + n;" % (), "if (n %% 3 == %d) continue; s += n;" % r.randint(0, 2), "if (s > %d) break; s += n + 1;" % r.randint(5, 300), "s += k; n -= 1;")
    if "n -= 1" in b and c in ("n--", "n-- && s < 60000"):
        c = "n-- > 0"
    return ("int U@(int n, int k) { int s = %d; while (%s) { %s } return s * 10 + n; }" % (pick(r, 0, 1, -4), c, b), [(0, 40), (-50, 50)])


@ext
def stack(r):
    push = pick(r, "a@[top++] = x;", "a@[top] = x; top++;", "a@[++top] = x;", "a@[top = top + 1] = x;", "a@[top++] = x; a@[top - 1] += %d;" % r.randint(1, 9))
    pre = "++t" in push or "top = " in push
    pop = pick(r, "s = s * 3 + a@[top--];", "x = a@[top]; top--; s = s * 3 + x;") if pre else pick(r, "s = s * 3 + a@[--top];", "top -= 1; s = s * 3 + a@[top];", "s = s * 3 + a@[top -= 1];")
    return ("""int a@[32]; int U@(int n, int x) { int top = %d; int i = 0; int s = 0; while (i++ < n) { %s x = x * %d + i; x %%= 1000; if (i %% %d == 0 && top > %d) { %s s %%= 10007; } }
while (top > %d) { %s s %%= 10007; } return s + top; }""" % (-1 if pre else 0, push, r.randint(2, 9), r.randint(2, 5), -1 if pre else 0, pop, -1 if pre else 0, pop), [(0, 28), (-99, 99)])


@ext
def forstep(r):
    i = pick(r, "i = 0", "int i = 0", "i = j = 0")
    cond = pick(r, "i < n", "i <= n", "i < n && s < 5000", "(j += 2) < n + 20 && i < n")
    step = pick(r, "i++", "++i", "i += 1", "i += 2", "(i++, j--)", "(j = i, i += 3)", "i = i + 1")
    b = pick(r, "s += i * k;", "if (i == k) continue; s += i;", "if (s > 400) break; s += i * i;", "s += j; if (i & 1) { j++; continue; } s ^= i;", "a@[i & 7]++;", "a@[i & 7] += s++;")
    return ("int a@[8]; int U@(int n, int k) { int i; int j = 3; int s = 0; for (%s; %s; %s) { %s } putarray(8, a@); return s * 2 + j; }" % (i, cond, step, b), [(-2, 40), (-5, 40)])


@ext
def chained(r):
    e = pick(r, "x = y = z + %d;" % cst(r), "x = (y = z) + 1;", "x += y -= z;", "x = y += z *= 2;", "a@[k & 3] = x = y + 1;", "x = a@[k & 3] = z - y;", "a@[0] = a@[1] = a@[2] = y;",
             "x = (y = z, z = 3, y + z);", "x = -(y = z) + %d;" % cst(r), "x <<= y &= 7;", "x = (a@[k & 3] += 5) * (y -= 1);", "x = (y = k) > (z = 4) ? y++ : --z;", "g@ = x = y; x += g@++;")
    e2 = pick(r, "", "y = x++ - z;", "z = --y * 2;", "a@[k & 1]++; z += a@[k & 1];", "--a@[k & 3]; y -= a@[k & 3];", "z = g@-- + (x & 15);")
    return ("""int a@[4] = {%d, 2, -7, 40}; int g@ = 3; int U@(int k, int z) { int x = k %% 50; int y = %d; %s %s x %%= 100003; %s putint(x); putch(32); putint(y); putch(32); putint(z); putch(32); putint(g@); putch(10); putarray(4, a@); return x + y; }"""
            % (cst(r) % 100, cst(r) % 1000, e, e2, e if "<<" not in e else ""), [(0, 60), (-90, 90)])


@ext
def testset(r):
    f = "int f@(int x) { %s return x %% %d; }" % (pick(r, "", "g@++;", "g@ += x;", "if (x < 0) return g@--;"), r.randint(2, 9))
    t = pick(r, "if ((q = f@(k)) > %d) s += q; else s -= q;" % r.randint(0, 4), "while ((q = f@(k)) && n-- > 0) { s += q; k += 3; }", "while ((k = k / 2) > 0) s += k; q = s;",
             "if ((q = n - k) && (n = q / 2)) s = n; else s = q;", "if ((q = f@(n)) == (s = f@(k)) || q++ > 2) s += 100;", "do { q = f@(k++); s += q; } while (s < 40 && q);",
             "if (!(q = f@(n))) s = 7; else if ((s = q - 1) > 2) s *= q;", "q = (s = f@(n)) ? f@(k) : (s = -1);")
    return ("int g@ = 1; %s int U@(int n, int k) { int s = 0; int q = 0; %s %s return s * 10 + q + n + k + g@ * 100; }" % (f, t, t if r.random() < .4 else ""), [(-3, 30), (-60, 60)])


@ext
def shortset(r):
    def a():
        return pick(r, "(x = y)", "x++", "(y += 2) > 5", "--y", "(z = x, z > 1)", "k > 3", "y", "(k = k - 1)", "z-- > 0", "f@(z)", "(x -= 3) == 0")
    def c():
        s = a()
        for _ in range(r.randint(1, 3)):
            s += pick(r, " && ", " || ") + a()
        return s
    use = pick(r, "s = %s;", "if (%s) s += 1;", "s += (%s) ? x : y;", "s += !(%s);", "while (s < 4 && (%s)) s++;", "s = (%s) * 3;")
    return ("int g@; int f@(int v) { g@ += v; return v & 1; } int U@(int x, int y, int k) { int z = 2; int s = 0; %s %s return s + x * 10 + y * 100 + z * 1000 + k * 3 + g@; }" % (use % c(), pick(r, use, "if (%s) s += 50;") % c()), [(-3, 5), (-3, 5), (-2, 6)])


@ext
def floatset(r):
    e = pick(r, "f++;", "--f;", "f += k;", "f *= 0.5;", "f -= 0.25; k += f;", "k = f;", "k += f * 2;", "f = k = f + 1.5;", "k *= 1.5;", "f = k++ / 2;", "f = (k -= 3) * 0.5;", "k = (f += 2.75);", "h@[k & 1] += f; f = h@[0];", "h@[k & 1]--; f += h@[1];", "k /= 2.0;", "f /= 2; k = f++;")
    e2 = pick(r, "f += 1;", "k = f--;", "f = ++k;", "h@[0] = h@[1] = f;", "f = (k, 0.5);")
    return ("float h@[2] = {0.5, 3}; int U@(int k) { float f = %s; %s %s putint(f * 8); putch(32); putint(k); putch(32); putint(h@[0] * 4 + h@[1] * 32); return k; }" % (pick(r, "0.5", "k * 0.25", "-1.75", "3"), e, e2), [(-40, 40)])


@ext
def gotos(r):
    k = r.randrange(8)
    c, d = r.randint(3, 40), r.randint(1, 5)
    if k == 0:
        t = "int i = 0; int s = 0; again@: s += i * %d; i++; if (i < n) goto again@; return s + i;" % d
    elif k == 1:
        t = "int s = 0; int i = 0; if (k > 2) goto mid@; top@: s += %d; mid@: s = s * 2 %% 10007; i++; if (i < n) goto top@; if (s %% 3 == 0 && i < n + 4) goto mid@; return s * 10 + i;" % d
    elif k == 2:
        t = "int i = 0; int j = 0; int s = 0; while (i < n) { j = 0; while (j < n) { if (i * j == %d) goto out@; { int q = i ^ j; s += q; if (q == k) goto next@; } j++; } i++; } out@: s += 1000; next@: return s * 100 + i * 10 + j;" % c
    elif k == 3:
        t = "int s = 0; int i = n; if (n < 3) goto small@; if (n < 10) goto medium@; s = 1; goto done@; small@: s = 2; i = i * 2; medium@: s = s + 4; i += k; if (i < %d) { i += 7; goto medium@; } done@: return s * 100 + i;" % c
    elif k == 4:
        t = "int s = 0; int i = 0; a@: if (i >= n) goto z@; i++; if (i %% %d == 0) goto a@; s += i; if (s > %d) goto b@; goto a@; b@: s -= %d; if (s > 0) goto a@; z@: return s * 64 + i;" % (d + 1, c * 3, c * 2)
    elif k == 5:
        t = "int s = 0; int f = 0; int i = 0; x@: if (f) goto y@; f = 1; s += k; y@: f = !f; s += i++; if (i < n) { if (s & 1) goto x@; goto y@; } return s;"
    elif k == 6:
        t = "int s = 0; int x = 0; int y = 1; int t = 0; loop@: if (s >= n) goto end@; t = x + y; x = y; y = t %% %d; s++; goto loop@; end@: return x * 1000 + y;" % (c + 60)
    else:
        t = "int s = 0; int i = 0; do { for (i = 0; i < n; i++) { if (i == %d) goto found@; s += i; } if (s > 4000) goto fail@; k++; } while (k < %d); fail@: s = -s; found@: while (i--) { s++; if (s == 0) goto fail2@; } return s; fail2@: return 77;" % (d * 3, c)
    # loops tested at their end run at least once per unit of n (KF2)
    return ("int U@(int n, int k) { %s }" % t, [(1 if k < 2 else 0, 25), (-3, 3 if k == 7 else 20)])


@ext
def gotofsm(r):
    n = r.randint(2, 4)
    st = []
    for i in range(n):
        st.append("s%d@: if (p++ >= n) goto e@; c = a@[p & 7]; s = s * 3 %% 1009 + %d; if (c > %d) goto s%d@; %s goto s%d@;" % (
            i, i + 1, r.randint(-5, 60), r.randrange(n), pick(r, "", "if (c < %d) goto s%d@;" % (r.randint(-20, 20), r.randrange(n)), "s += c;", "a@[p & 7] += 9;"), r.randrange(n)))
    return ("int a@[8] = {%s}; int U@(int n, int c) { int s = c; int p = 0; goto s%d@; %s e@: return s * 10 + c %% 10; }" % (", ".join(str(r.randint(-60, 99)) for _ in range(8)), r.randrange(n), " ".join(st)), [(0, 30), (-9, 9)])


@ext
def bitset(r):
    ops = [pick(r, "x &= %s;", "x |= %s;", "x ^= %s;", "x += %s & 1023;", "s = s * 2 + (x >> (%s & 7));", "x = ~x; x ^= %s;") % pick(r, "y", "k", "%d" % cst(r), "y++", "(k += 5)", "~k", "(y = k | 16)", "x << 1 & 255" if 0 else "(y & 31)") for _ in range(r.randint(2, 5))]
    return ("int U@(int x, int k) { int y = %d; int s = 0; x &= 65535; %s s %%= 65536; return (s ^ x) + y; }" % (cst(r) & 0xffff, " ".join(ops)), [(0, 9999), (-1000, 1000)])


@ext
def argset(r):
    a = pick(r, "f@(x++, y)", "f@(x = 4, y--)", "f@(y, (x += 2, x * 2))", "f@(f@(x++, 1), y++)", "f@(x ? y++ : 3, 2)", "f@(a@[x & 3]++, y)", "f@(x, y = 2)", "f@(--x, --y)")
    return ("int a@[4] = {5, -6, 7}; int f@(int p, int q) { p++; a@[q & 3] += p--; return p * 2 - --q; } int U@(int x, int y) { int s = %s; s = s %% 1000 + %s; putarray(4, a@); return s * 10 + x - y; }" % (a, pick(r, a, "x++", "(y = s)", "f@(1, 2)")), [(-9, 9), (-9, 9)])
