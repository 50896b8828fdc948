"""C08: ill-formed programs are rejected with the diagnostic of the rule they break, well-formed ones are accepted"""
import collections, re
from vlib import wrong
from vlib.common import *
from vlib.sysyrun import parallel


CODES = {"A": 16, "B": 17}


def observe(cmmc, d, p):
    """compile; the diagnostics as [line, code]"""
    f = "%s/%s.%s" % (d, p["id"], "spl" if p["strict"] else "sy")
    out = f + ".out"
    open(f, "w").write(p["source"])
    if os.path.exists(out):
        os.unlink(out)
    cfg = "strict" if p["strict"] else "riscv"
    cmd = [cmmc, "-t", "tac", "--emitIR", "--strict"] if p["strict"] else [cmmc, "-t", "riscv", "-O0"]
    try:
        r = subprocess.run(cmd + ["-o", out, f], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=30)
        rc, err = r.returncode, r.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        rc, err = -9, "timeout"
    size = os.path.getsize(out) if os.path.exists(out) else 0
    ds = []
    if p["strict"]:
        ds = [[int(m.group(2)), CODES.get(m.group(1)) or (int(m.group(1)) if len(m.group(1)) < 3 else 0)]
              for m in re.finditer(r"Error type (\w+) at Line (\d+):", err)]
    elif rc and re.search(r"\.sy:(\d+)\.\d+[-.\d]*: ", err):
        ds = [[int(re.search(r"\.sy:(\d+)\.\d+[-.\d]*: ", err).group(1)), 0]]
    elif rc and re.search(r"Reason: |(Undefined|Redefined) \w+ \"", err) and "Failed to select" not in err and "Unreachable code" not in err:
        m = re.search(r"line: (\d+)", err)
        ds = [[int(m.group(1)) if m else 0, 0]]
    if os.path.exists(out):
        os.unlink(out)
    os.unlink(f)
    return dict(cfg=cfg, exit=rc, size=0 if rc == 0 else size, diags=ds, first=1 - p["strict"], err=err)


def judge(progs, work, tag="static"):
    path = os.path.join(work, tag + ".ndjson")
    with open(path, "w") as f:
        for p in progs:
            q = {k: p[k] for k in ("id", "items", "strict", "builtins")}
            q["obs"] = [{k: o[k] for k in ("exit", "size", "diags", "first")} for o in p["obs"]]
            f.write(json.dumps(q) + "\n")
    rc, out = tlc("Static", "Static.cfg", {"STATIC_PROGS": path}, timeout=700)
    with open(os.path.join(work, tag + ".tlc"), "w") as f:
        f.write(out)
    res = {m.group(1): [int(m.group(2)), [int(x) - 1 for x in m.group(3).split(",") if x.strip()], ""]
           for m in re.finditer(r'<<"STA", "([^"]+)", (\d+), \{([\d, ]*)\}>>', out)}
    for m in re.finditer(r'<<\s*"DIA",\s*"([^"]+)",\s*"([^"]*)"\s*>>', out):
        res[m.group(1)][2] = m.group(2)
    if rc != 0 or len(res) != len(progs):
        die("TLC did not judge every program (rc %s, %d of %d); see %s" % (rc, len(res), len(progs), os.path.join(work, tag + ".tlc")))
    return res, tlc_stats(out)


def main():
    rep = Report("C08", "model_checking", ["one statement per line, so that the line of a diagnostic is unambiguous"])
    n = 40000 if THOROUGH else 3000
    base = SEED * 7000003
    cmmc = os.path.join(build(), "bin", "cmmc")
    d = scratch("c08")
    count = collections.Counter()
    states = trans = bad = 0
    samples = []
    for lo in range(0, n, 10000):
        progs = []
        for i in range(lo, min(n, lo + 10000)):
            p = wrong.program(base + i, "spl" if i % 2 else "sysy")
            p["id"] = "P%d" % i
            progs.append(p)

        def one(p):
            p["obs"] = [observe(cmmc, d, p)]
        parallel(one, progs)
        log("compiled", len(progs))
        res, st = judge(progs, d, "static%d" % lo)
        states, trans = states + st[1], trans + st[0]
        for p in progs:
            lines, viol, text = res[p["id"]]
            count["%s %s" % ("SPL" if p["strict"] else "SysY", "ill-formed" if lines else "well-formed")] += 1
            bad += lines > 0
            if lines > 1 and len(samples) < 3:
                samples.append({"source": p["source"], "diagnostics": p["obs"][0]["diags"]})
            if viol and len(rep.violations) < 6:
                again = observe(cmmc, d, p)
                o = p["obs"][0]
                if (again["exit"], again["diags"]) != (o["exit"], o["diags"]):
                    continue
                rep.violation(p["id"], "program %s: the specification expects the diagnostics (line, code) %s; cmmc: exit %d, %s" %
                              (p["id"], text or "none", o["exit"], o["diags"]),
                              {"program." + ("spl" if p["strict"] else "sy"): p["source"], "stderr": o["err"], "expected": text + "\n"})
    rep.finish(states=states, transitions=trans, traces_validated_against_impl=n, evaluations=n, distinct_nontrivial=bad,
               rule="generated programs; one counts as non-trivial when the specification finds it ill-formed",
               verdicts=dict(count), samples=samples)
