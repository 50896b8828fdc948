"""Writes known/*.json from the source text of the recorded findings (run by hand)."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import parse
P = {
"KF2": ("""int f(int n, int k) { int s = 1; int i = 0; while (1) { s = (s + i * k) % 7; i = i + 1; if (i >= n) break; } return s * 100 + i; }
int main() { int n = getint(); while (n > 0) { int a = getint(); int b = getint(); putint(f(a,b)); putch(10); n = n - 1; } return 0; }""", [5, -3, 3, 0, 5, 6, 40, 40, 47, 1, -7]),
"KF3": ("""int f(int x, int y) { return (x % 8 + y) % 8; }
int main() { int n = getint(); while (n > 0) { int a = getint(); int b = getint(); putint(f(a,b)); putch(10); n = n - 1; } return 0; }""", [3, -10, 3, 2147483647, 1, -15, 6]),
"KF6": ("""int f(int a, int b) { float x = a / 4.0; float y = b / 8.0; int s = 0; if (!(x > y)) s = s + 1; if (!(x >= y)) s = s + 2; if (!(x < y)) s = s + 4; if (!(x <= y)) s = s + 8; return s; }
int main() { int n = getint(); while (n > 0) { int a = getint(); int b = getint(); putint(f(a, b)); putch(10); n = n - 1; } return 0; }""", [3, 1, 2, 1, 3, 5, 1]),
"KF7": ("""int f(int x) { int a[1200] = {}; int i = 0; while (i < 1200) { a[i] = x + i; i = i + 1; } return a[x] + a[1199]; }
int main() { int n = getint(); while (n > 0) { putint(f(getint())); putch(10); n = n - 1; } return 0; }""", [2, 7, 100]),
"KF8": ("""int f(int x) { int a[12000] = {}; int i = 0; while (i < 20) { a[i * 500] = x + i; i = i + 1; } return a[x] + a[9500]; }
int main() { int n = getint(); while (n > 0) { putint(f(getint())); putch(10); n = n - 1; } return 0; }""", [2, 7, 1000]),
"KF10": ("""int f(int a, int b, int c) { if (a < b && a <= c) return 1; return 0; }
int main() { int n = getint(); while (n > 0) { int a = getint(); int b = getint(); int c = getint(); putint(f(a, b, c)); putch(10); n = n - 1; } return 0; }""", [2, 3, 5, 7, 3, 5, 2147483647]),
"KF15": ("""int f(int i, int n) { while (1) { i = i + 1; putint(i); putch(10); if (i == 2147483647) break; if (!(i <= n)) break; } return i % 100; }
int g(int i, int n) { while (1) { putint(i); putch(10); if (i % 5 == 0) break; int j = i + 1; i = i + 3; if (j >= n) break; } return i % 100; }
int main() { int n = getint(); int i = getint(); putint(f(i, n)); putch(10); putint(g(i, n)); putch(10); return 0; }""", [2147483647, 2147483642]),
}
P["KF11"] = P["KF12"] = P["KF10"]
for k, (t, i) in P.items():
    p = parse.program(t, i)
    p["id"], p["maxSteps"] = k, 20000
    json.dump(p, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../known/%s.json" % k.lower()), "w"))
