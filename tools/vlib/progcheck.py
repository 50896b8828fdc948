"""Checks of the form: many SysY programs, several configurations of the implementation,
every observation judged against the behaviour of the SysY machine."""
import json, os, random, collections
from . import ast, gen
from .common import *
from . import sysyrun
from .sysyrun import Runner, parallel

QUOTA = 6            # violations reported per run


def source_of(p):
    return p.get("source") or ast.to_source(p)


def run(rep, programs, configs, label, budget=None, runner=None, batch=3000, judge=None):
    """programs: list of program dicts with unique ids; configs(p) -> list of functions (runner, p, d) -> observation or None"""
    judge = judge or sysyrun.judge
    d = scratch(label)
    runner = runner or Runner(os.path.join(build(), "bin", "cmmc"), d)
    runner.dir = d
    t0 = time.time()
    skipped = [0]

    def one(p):
        if budget and time.time() - t0 > budget:
            p["obs"] = None
            return
        f = runner.files(p)
        p["obs"] = observe(p, f)

    def observe(p, f):
        obs = []
        for c in configs(p):
            o = c(runner, p, f)
            for x in o if isinstance(o, list) else [o]:
                if x is None or "inconclusive" in x:
                    skipped[0] += 1
                    reasons[x["inconclusive"].split("why=")[-1][:60] if x else "-"] += 1
                else:
                    obs.append(x)
        return obs

    reasons = collections.Counter()
    known = {k["id"]: k for k in rep.known() if "program" in k and k.get("kind") != "site"}
    sites = [k for k in rep.known() if k.get("kind") == "site"]
    progs = list(programs)
    for k in list(known.values()) + [k for k in sites if "program" in k]:
        q = json.load(open(os.path.join(VERIF, k["program"])))
        q["id"] = k["id"]
        progs.insert(0, q)
    parallel(one, progs)
    done = [p for p in progs if p["obs"]]
    log("ran %d programs (%d observations, %d inconclusive) in %.0fs" %
        (len(done), sum(len(p["obs"]) for p in done), skipped[0], time.time() - t0))
    states = trans = 0
    status = collections.Counter()
    bad = []
    for i in range(0, len(done), batch):
        part = done[i:i + batch]
        res, (g, s) = judge(part, d, "batch%d" % i)
        states += s
        trans += g
        for p in part:
            st, ret, steps, viol, exp = res[str(p["id"])]
            status[st] += 1
            p["steps"] = steps
            p["status"] = st
            if viol:
                p["badset"] = set(viol)
                bad.append((p, viol, exp, ret))
    log("TLC: %d states; %s" % (states, dict(status)))
    if reasons:
        log("inconclusive:", dict(reasons.most_common(5)))
    nv = 0
    runner.timeout *= 3
    atsite = collections.Counter()
    # programs that hang are looked at last: looking again takes long
    bad.sort(key=lambda b: (b[0]["id"] not in known, any(b[0]["obs"][v]["exit"] == -9 for v in b[1])))
    for p, viol, exp, ret in bad:
        # an observation made with the recorded call sites repaired decides whether those sites are the cause
        repaired = {o["aux"]: i for i, o in enumerate(p["obs"]) if o.get("aux")}
        viol = [v for v in viol if not p["obs"][v].get("aux")]
        if sites:
            here = [v for v in viol if p["obs"][v]["cfg"] in repaired and repaired[p["obs"][v]["cfg"]] not in p["badset"]]
            for v in here:
                atsite[p["obs"][v]["cfg"]] += 1
            viol = [v for v in viol if v not in here]
        if not viol:
            continue
        if p["id"] in known:
            k = known[p["id"]]
            cfgs = sorted(p["obs"][v]["cfg"] for v in viol)
            if set(cfgs) <= set(k["configs"]):
                rep.known_line("%s (%s)" % (k["what"], ", ".join(cfgs)))
                continue
        if nv >= QUOTA or nv and time.time() - T0 > 450:
            nv += 1
            continue
        # look again before reporting
        f = runner.files(p)
        runner.keep = True
        again = {o["cfg"]: o for o in observe(p, f)}
        runner.keep = False
        real = [v for v in viol if p["obs"][v]["cfg"] in again and
                again[p["obs"][v]["cfg"]]["out"] == p["obs"][v]["out"] and again[p["obs"][v]["cfg"]]["exit"] == p["obs"][v]["exit"]]
        if not real:
            log("not reproducible: program", p["id"], [p["obs"][v]["cfg"] for v in viol])
            continue
        nv += 1
        o = p["obs"][real[0]]
        files = {"program" + runner.suffix: source_of(p), "program.in": " ".join(map(str, p["input"])) + "\n", "expected.out": exp or b"",
                 "program.json": json.dumps({k: v for k, v in p.items() if k not in ("obs", "badset", "tac")})}
        for v in real:
            if "asm" in again[p["obs"][v]["cfg"]]:
                files["code.%s.s" % p["obs"][v]["cfg"]] = again[p["obs"][v]["cfg"]]["asm"]
            files["observed.%s.out" % "".join(ch if ch.isalnum() else "_" for ch in p["obs"][v]["cfg"])] = bytes(p["obs"][v]["out"])
        what = ("program %s: %s disagree(s) with the specification\nexpected exit %s, observed exit %s%s\ncommand: %s\nexpected output: %r\nobserved output: %r" %
                (p["id"], ", ".join(p["obs"][v]["cfg"] for v in real), ret, o["exit"], " (" + o["note"] + ")" if o.get("note") else "",
                 " ".join(o.get("cmd", [])), (exp or b"")[:300], bytes(o["out"])[:300]))
        rep.violation(str(p["id"]), what, files)
    if atsite:
        for k in sites:
            rep.known_line("%s (%d observations: %s)" % (k["what"], sum(atsite.values()), dict(atsite)))
    if nv > QUOTA:
        log("%d further disagreements not reported" % (nv - QUOTA))
    halted = [p for p in done if p["status"] == "halt"]
    nontriv = [p for p in halted if p["steps"] >= 20]
    cfgs = collections.Counter(o["cfg"] for p in halted for o in p["obs"] if not o.get("aux"))
    rep.cov.update(states=states, transitions=trans,
                   traces_validated_against_impl=sum(cfgs.values()),
                   evaluations=len(done), distinct_nontrivial=len({source_of(p) for p in nontriv}),
                   rule="a program counts when its behaviour is defined (the specification reaches halt) and takes at least 20 steps",
                   observations_per_configuration=dict(cfgs), undefined_programs=status["undef"], inconclusive_runs=skipped[0],
                   samples=[{"source": source_of(p), "input": p["input"]} for p in sorted(nontriv, key=lambda q: len(source_of(q)))[:2]])
    shutil.rmtree(d, ignore_errors=True)
    return done
