"""Discharge the obligations of a WhyML file with a portfolio of SMT solvers."""
import os, re, subprocess, sys, time, json, shutil, signal
from concurrent.futures import ThreadPoolExecutor

DRV = "/usr/share/why3/drivers"
STRATS = {
    "z3": ("z3_487.drv", lambda f, t: ["/usr/bin/z3", "-T:%d" % t, "-memory:3000", f]),
    "z3n": ("z3_487.drv", lambda f, t: ["z3-new", "-T:%d" % t, "-memory:3000", f]),
    "z3s": ("z3_487.drv", lambda f, t: ["/usr/bin/z3", "-T:%d" % t, "-memory:3000", "smt.random_seed=7", "smt.qi.eager_threshold=20", f]),
    "z3nm": ("z3_487.drv", lambda f, t: ["z3-new", "-T:%d" % t, "-memory:3000", "smt.mbqi=false", f]),
    "cvc5": ("cvc5.drv", lambda f, t: ["cvc5", "--tlimit=%d" % (t * 1000), f]),
    "cvc5e": ("cvc5.drv", lambda f, t: ["cvc5", "--tlimit=%d" % (t * 1000), "--enum-inst", "--no-e-matching", f]),
    "cvc5f": ("cvc5.drv", lambda f, t: ["cvc5", "--tlimit=%d" % (t * 1000), "--full-saturate-quant", f]),
}
SCHED = [("z3", 2), ("cvc5", 3), ("z3n", 3), ("z3", 10), ("cvc5", 10), ("z3nm", 10), ("z3s", 10), ("cvc5f", 15), ("z3n", 20), ("cvc5", 40), ("z3", 40)]


def why3_config(scratch):
    conf = os.path.join(scratch, "why3.conf")
    if not os.path.exists(conf):
        with open(conf, "w") as f:
            f.write("[main]\nloadpath = \"/usr/share/why3/stdlib\"\nmagic = 14\nmemlimit = 2000\nrunning_provers_max = 8\ntimelimit = 5.000000\n")
    return conf


def gen(mlw, outdir, driver, conf, tr="split_vc", theory="M"):
    os.makedirs(outdir, exist_ok=True)
    p = subprocess.run(["why3", "-C", conf, "prove", "-L", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "theories"), "-a", tr, "-D", os.path.join(DRV, driver), "-o", outdir, mlw, "-T", theory],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode()


GOALRE = re.compile(r'^(.*?)-([A-Za-z0-9_]+)-(.*?)(\d*)\.smt2$')


def list_goals(d):
    res = []
    for f in os.listdir(d):
        m = GOALRE.match(f)
        if not m:
            continue
        nm = m.group(3)
        idx = int(m.group(4) or 0)
        if nm.endswith("qtvc"):
            fn = nm[:-4]
            res.append((fn, idx, f))
        else:
            # lemma; trailing digits belong to split parts
            res.append((nm, idx, f))
    res.sort()
    return res


def location(path, mlwlines):
    """(line, text) of the specification clause behind a goal"""
    s = open(path, "rb").read()[-200000:].decode("utf8", "replace")
    g = s.rfind(";; Goal ")
    m = re.search(r';; File "[^"]*", line (\d+), characters (\d+)-(\d+)', s[g:]) if g >= 0 else None
    if not m:
        return 0, ""
    ln, a, b = int(m.group(1)), int(m.group(2)), int(m.group(3))
    if 0 < ln <= len(mlwlines):
        line = mlwlines[ln - 1]
        e = re.search(r"\[@expl:([^\]]*)\]", line)
        return ln, (e.group(1) if e and abs(line.index(e.group(0)) - a) < 60 else line[a:b].strip() or line.strip())[:160]
    return ln, ""


def run_one(cmd, t):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t + 5)
        out = p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        out = "timeout"
    return out.strip().split("\n")[0] if out.strip() else "", time.time() - t0, out[:2000]


class Result:
    def __init__(self):
        self.goals = []      # dict(fn, idx, loc, expl, status, solver, time, outs)
        self.error = None


def expls(d):
    """goal file -> explanation, from the tasks printed in why3's own syntax"""
    res = {}
    for f in os.listdir(d):
        s = open(os.path.join(d, f), "rb").read()[-60000:].decode("utf8", "replace")
        g = s.rfind("\ngoal ")
        if g < 0:
            continue
        es = [e for e in re.findall(r"\[@expl:([^\]]*)\]", s[g:g + 3000]) if not e.startswith("VC for")]
        if es:
            res[f.rsplit(".", 1)[0]] = es[0]
    return res


def prove(mlw, scratch, theory="M", jobs=8, hints=None, sched=None, maxtime=None, skip=None, verbose=False, only=None, deadline=None, stop=None):
    """hints: {"fn#idx": [solver, time]}"""
    r = Result()
    conf = why3_config(scratch)
    base = os.path.join(scratch, "goals_" + os.path.basename(mlw)[:-4] + ("" if theory == "M" else "_" + theory))
    shutil.rmtree(base, ignore_errors=True)
    sched = sched or SCHED
    drivers = sorted(set(STRATS[s][0] for s, _ in sched)) + ["why3.drv"]
    with ThreadPoolExecutor(len(drivers)) as ex:
        outs = list(ex.map(lambda d: gen(mlw, os.path.join(base, d), d, conf, theory=theory), drivers))
    for rc, o in outs:
        if rc != 0:
            r.error = o
            return r
    d0 = os.path.join(base, drivers[0])
    lines = open(mlw).read().split("\n")
    exp = expls(os.path.join(base, "why3.drv"))
    goals = list_goals(d0)
    if only:
        goals = [g for g in goals if g[0] in only]

    def work(g):
        fn, idx, f = g
        ln, ex = location(os.path.join(d0, f), lines)
        ex = exp.get(f.rsplit(".", 1)[0], ex)
        info = {"fn": fn, "idx": idx, "line": ln, "expl": ex, "status": "unproved", "solver": None, "time": 0.0, "outs": [], "file": f}
        sc = list(sched)
        h = (hints or {}).get("%s#%d" % (fn, idx))
        if h and h[0] in STRATS:
            sc = [(h[0], max(3, int(h[1] * 4) + 2))] + sc
        for s, t in sc:
            if deadline and time.time() > deadline:
                info["outs"].append("deadline reached")
                break
            if stop and stop():
                info["outs"].append("not attempted further: a failing input was found")
                info["stopped"] = True
                break
            if maxtime and t > maxtime:
                continue
            drv, cmd = STRATS[s]
            path = os.path.join(base, drv, f)
            res, tm, out = run_one(cmd(path, t), t)
            info["time"] += tm
            if res == "unsat":
                info["status"] = "valid"
                info["solver"] = s
                info["stime"] = tm
                break
            info["outs"].append("%s(%ds): %s" % (s, t, out.split("\n")[0][:200]))
            if res == "sat":
                info["status"] = "sat"
        return info
    with ThreadPoolExecutor(jobs) as ex:
        for info in ex.map(work, goals):
            r.goals.append(info)
            if verbose and info["status"] != "valid":
                print("  UNPROVED %s#%d line %d: %s  %s" % (info["fn"], info["idx"], info["line"], info["expl"], info["outs"][-1:]))
    r.base = base
    return r


if __name__ == "__main__":
    scratch = "/tmp/w"
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("mlw")
    ap.add_argument("-t", type=int, default=None)
    ap.add_argument("-f", nargs="*")
    a = ap.parse_args()
    t0 = time.time()
    r = prove(a.mlw, scratch, theory="Prelude" if "prelude" in a.mlw else "BitsImpl" if a.mlw.endswith("bits.mlw") else "M", verbose=True, maxtime=a.t, only=a.f)
    if r.error:
        print(r.error)
        sys.exit(2)
    ok = sum(g["status"] == "valid" for g in r.goals)
    print("%d/%d valid, %.1fs wall, slow: %s" % (ok, len(r.goals), time.time() - t0, sorted([(round(g["time"], 1), g["fn"], g["idx"], g["solver"]) for g in r.goals], reverse=True)[:5]))
