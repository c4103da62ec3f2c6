#!/usr/bin/env python3
"""Decide one property:  check.py <ID> [--tier quick|thorough] [--update-baseline]

1. extract the functions under contract from /repo's current source (clang AST -> WhyML)
2. discharge every obligation (Why3 VCs; z3, cvc5)
3. run the property's native harness on the real code: search for a failing input, and bounded
   stand-in for the functions that are not under contract
Exit 0 held, 1 violation (VIOLATION line), 2 error of the machinery.
"""
import sys, os, json, glob, time, hashlib, subprocess, tempfile, shutil, re, argparse, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import prove as P
from cxx import REPO, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sha(t):
    return hashlib.sha256(re.sub(r"\s+", " ", t).strip().encode()).hexdigest()[:16]


def fn_body(text):
    return text.split("\n=\n", 1)[1] if "\n=\n" in text else text


# ---------------------------------------------------------------- native harness
def native(prop, scratch, tier, seed, res):
    src = os.path.join(VERIF, "native", prop + ".cpp")
    res["present"] = os.path.exists(src)
    if not res["present"]:
        return
    t0 = time.time()
    head = open(src).read().split("\n")[:8]
    srcs, bound, flags = [], "", ""
    for l in head:
        if l.startswith("// sources:"):
            srcs += l[11:].split()
        if l.startswith("// bound:"):
            bound = l[9:].strip()
        if l.startswith("// flags:"):
            flags = l[9:].strip()
    res["bound"] = bound
    full = []
    import glob
    for s in srcs:
        g = sorted(glob.glob(os.path.join(REPO, s)))
        if not g:
            res["error"] = "source %s not found" % s
            return
        full += g
    exe = os.path.join(scratch, "h_" + prop)
    objs, cmds = [], []
    base = ["g++", "-std=gnu++17", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
            "-I" + REPO, "-I" + os.path.join(VERIF, "native")] + flags.split()
    from concurrent.futures import ThreadPoolExecutor

    def comp(f):
        o = os.path.join(scratch, "o_%s.o" % sha(f))
        p = subprocess.run(base + ["-c", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout.decode("utf8", "replace"), o
    with ThreadPoolExecutor(6) as ex:
        rs = list(ex.map(comp, [src] + full))
    for rc, o, _ in rs:
        if rc != 0:
            res["error"] = "harness does not compile against /repo:\n" + o[-3000:]
            return
    p = subprocess.run(base + [r[2] for r in rs] + ["-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        res["error"] = "harness does not link:\n" + p.stdout.decode("utf8", "replace")[-3000:]
        return
    run_dir = os.path.join(scratch, "run")
    os.makedirs(run_dir, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1", LC_ALL="C.UTF-8")
    cmd = [exe, "--seed", str(seed), "--scale", "1" if tier == "quick" else "10"]
    limit = 400 if tier == "quick" else 3000
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, cwd=run_dir, env=env)
        out = p.stdout.decode("utf8", "replace")
        rc = p.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode("utf8", "replace")
        rc = -99
    res["rc"] = rc
    res["out"] = out
    res["samples"] = [l[7:] for l in out.split("\n") if l.startswith("SAMPLE ")][:5]
    m = re.search(r"STAT evaluations (\d+)", out)
    res["evaluations"] = int(m.group(1)) if m else 0
    m = re.search(r"STAT distinct (\d+)", out)
    res["distinct"] = int(m.group(1)) if m else 0
    res["known"] = [l[6:] for l in out.split("\n") if l.startswith("KNOWN ")]
    res["wall"] = time.time() - t0
    if rc == 0 and "\nDONE" in out:
        res["ok"] = True
    elif rc == -99:
        res["error"] = "harness did not finish in %d s" % limit
    else:
        i = out.find("FAIL ")
        res["fail"] = out[i:i + 3000] if i >= 0 else "harness exited with %s\n%s" % (rc, out[-2500:])


# ---------------------------------------------------------------- proofs
def proof(prop, scratch, tier, baseline, res, deadline, stop):
    spec = os.path.join(VERIF, "contracts", prop + ".spec")
    specs = [spec] if os.path.exists(spec) else []
    for x in "bcdefgh":
        s2 = os.path.join(VERIF, "contracts", prop + x + ".spec")
        if os.path.exists(s2):
            specs.append(s2)
    res["present"] = bool(specs)
    res["parts"] = []
    for s in specs:
        part = {"spec": os.path.basename(s)}
        res["parts"].append(part)
        try:
            proof_part(s, scratch, tier, baseline.get(os.path.basename(s), {}), part, deadline, stop)
        except Exception as e:
            import traceback
            part["error"] = "%s: %s" % (type(e).__name__, e)
            part["trace"] = traceback.format_exc()[-3000:]


def proof_part(spec, scratch, tier, bl, part, deadline, stop):
    fnbl = bl.get("fns", {})
    b = B.build(spec, scratch, fnbl)
    mlw = os.path.join(scratch, b.prop + ".mlw")
    stubs = set()
    stub_reason = {}
    conf = P.why3_config(scratch)
    # typecheck; annotations that no longer fit their function turn it into a stub
    for _ in range(40):
        text, linemap = B.render(b, stubs)
        open(mlw, "w").write(text)
        p = subprocess.run(["why3", "-C", conf, "prove", "-L", os.path.join(VERIF, "theories"), "--type-only", mlw],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = p.stdout.decode()
        errs = [l for l in o.split("\n") if l and not l.startswith("Warning")]
        if p.returncode == 0:
            break
        m = re.search(r'line (\d+)', "\n".join(errs))
        ln = int(m.group(1)) if m else 0
        name = None
        for a, z, nm in linemap:
            if a <= ln < z:
                name = nm
        if name is None or name in stubs:
            # an unavailable callee without a baseline head etc.
            raise RuntimeError("WhyML does not type check: " + o[-1500:])
        stubs.add(name)
        stub_reason[name] = "contract no longer attaches: " + " ".join(errs)[-300:]
    part["unsupported"] = {n: e for n, e in b.tr.fn_err.items()}
    part["unattached"] = stub_reason
    part["text"] = b.tr.fn_text
    part["heads"] = {n: t.split("\n=\n", 1)[0] for n, t in b.tr.fn_text.items()}
    part["locals"] = b.tr.fn_locals
    part["funcs"] = b.tr.fn_funcs
    part["assumptions"] = sorted(b.tr.assumptions) + b.trusted
    part["noterm"] = [n for n, t in b.tr.fn_text.items() if "\n  diverges\n" in t]
    hints = bl.get("hints", {})
    r = P.prove(mlw, scratch, hints=hints, deadline=deadline, jobs=7, stop=stop)
    if r.error:
        raise RuntimeError("why3: " + r.error[-1500:])
    # second chance for anything not discharged, with less machine load
    bad = [g for g in r.goals if g["status"] != "valid"]
    part["goals"] = r.goals
    part["sha"] = {n: sha(fn_body(t)) for n, t in b.tr.fn_text.items()}
    part["changed"] = [n for n in part["sha"] if fnbl.get(n, {}).get("sha") != part["sha"][n]]
    if bad and not deadline_passed(deadline) and not stop():
        sched = [("z3", 60), ("cvc5", 60), ("z3n", 60)] if tier != "quick" else [("z3", 25), ("cvc5", 25)]
        retry(r, bad, sched, deadline, stop)
    # vacuity: with the goal replaced by false no postcondition may be provable
    part["vacuity"] = vacuity(r, tier, fnbl) if not stop() else {"checked": 0, "inconsistent": []}
    part["specfns"] = [f.name for f in b.fns]


def deadline_passed(d):
    return d and time.time() > d


def retry(r, bad, sched, deadline, stop):
    from concurrent.futures import ThreadPoolExecutor

    def one(g):
        for s, t in sched:
            if deadline_passed(deadline) or stop():
                return
            drv, cmd = P.STRATS[s]
            res, tm, out = P.run_one(cmd(os.path.join(r.base, drv, g["file"]), t), t)
            g["time"] += tm
            if res == "unsat":
                g["status"], g["solver"], g["stime"] = "valid", s, tm
                return
            g["outs"].append("%s(%ds): %s" % (s, t, out.split("\n")[0][:200]))
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, bad))


def vacuity(r, tier, fnbl):
    """replace goals by false: hypotheses must stay consistent as far as the solver can tell"""
    byfn = {}
    for g in r.goals:
        byfn.setdefault(g["fn"], []).append(g)
    count = [0]

    def one(g):
        src = os.path.join(r.base, "z3_487.drv", g["file"])
        s = open(src).read()
        i = s.rfind(";; Goal ")
        if i < 0:
            return None
        t = s[:i] + "\n(check-sat)\n"
        f = src + ".vac.smt2"
        open(f, "w").write(t)
        res, tm, out = P.run_one(["/usr/bin/z3", "-T:1", f], 1)
        os.unlink(f)
        count[0] += 1
        return g if res == "unsat" else None

    def fn_vacuous(item):
        # an infeasible path (for instance the impossible fall-through of a switch) has contradictory
        # hypotheses of its own; a contract is vacuous when every path through the function has
        fn, gs = item
        gs = list(reversed(gs))
        rest = gs[30:]
        for g in gs[:30] + rest[::max(1, len(rest) // 60)]:
            if one(g) is None:
                return None
        return fn
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        bad = [f for f in ex.map(fn_vacuous, byfn.items()) if f is not None]
    return {"checked": count[0], "inconsistent": bad}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--update-baseline", action="store_true")
    ap.add_argument("--keep")
    ap.add_argument("--no-native", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    prop = a.prop
    t0 = time.time()
    blfile = os.path.join(VERIF, "baseline", prop + ".json")
    baseline = json.load(open(blfile)) if os.path.exists(blfile) else {}
    scratch = a.keep or tempfile.mkdtemp(prefix="vp_%s_" % prop)
    os.makedirs(scratch, exist_ok=True)
    nat, prf = {}, {}
    deadline = time.time() + (620 if tier == "quick" else 3600)
    try:
        th = threading.Thread(target=native, args=(prop, scratch, tier, seed, nat))
        if not a.no_native:
            th.start()
        if not a.no_proof:
            prelude = P.prove(os.path.join(VERIF, "theories", "cxxprelude.mlw"), scratch, theory="Prelude", jobs=4)
            for lib in sorted(set(re.findall(r"^\s*#?use (bits)\.", "\n".join(open(f).read() for f in glob.glob(os.path.join(VERIF, "contracts", prop + "*.spec"))), re.M))):
                prelude.goals += P.prove(os.path.join(VERIF, "theories", lib + ".mlw"), scratch, theory=lib.capitalize() + "Impl", jobs=8).goals
            proof(prop, scratch, tier, baseline, prf, deadline, lambda: bool(nat.get("fail")))
        else:
            prelude = None
        if not a.no_native:
            th.join()
        return conclude(a, prop, tier, seed, t0, baseline, nat, prf, prelude, blfile)
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)


def known_findings(prop):
    f = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def conclude(a, prop, tier, seed, t0, baseline, nat, prf, prelude, blfile):
    ev = {"property": prop, "tier": tier, "seed": seed}
    parts = prf.get("parts", [])
    goals, failed, undecided = [], [], []
    fns_proved, fns_bounded, assumptions, inlined = [], [], set(), set()
    errors = []
    solvers = {}
    vac_checked, vac_bad = 0, []
    newbl = {}
    for p in parts:
        if "error" in p:
            errors.append(p["spec"] + ": " + p["error"])
            continue
        assumptions |= set(p["assumptions"])
        vac_checked += p["vacuity"]["checked"]
        vac_bad += p["vacuity"]["inconsistent"]
        failed_fns = set()
        for g in p["goals"]:
            goals.append(g)
            if g["status"] == "valid":
                solvers[g["solver"]] = solvers.get(g["solver"], 0) + 1
            else:
                failed_fns.add(g["fn"])
                if g.get("stopped"):
                    continue
                # an obligation fails; is the extracted text of the function the committed one?
                if g["fn"] in p["changed"] or g["fn"] not in p["sha"] and p["changed"]:
                    failed.append((p, g))
                else:
                    undecided.append((p, g))
        for n in p["specfns"]:
            if n in p["unsupported"]:
                fns_bounded.append("%s: %s" % (n, p["unsupported"][n]))
            elif n in p["unattached"]:
                fns_bounded.append("%s: %s" % (n, p["unattached"][n]))
            elif n in p["text"] and n not in failed_fns:
                fns_proved.append(n)
        for n, (q, inl, called) in p["funcs"].items():
            inlined |= set(inl)
        h = {}
        for g in p["goals"]:
            if g["status"] == "valid" and (g["solver"] != "z3" or g.get("stime", 0) > 0.5):
                h["%s#%d" % (g["fn"], g["idx"])] = [g["solver"], round(g.get("stime", 1), 2)]
        newbl[p["spec"]] = {"fns": {n: {"sha": p["sha"][n], "locals": p["locals"][n], "head": p["heads"][n]} for n in p["sha"]},
                            "hints": h, "goals": len(p["goals"])}
    discharged = sum(g["status"] == "valid" for g in goals)
    if a.update_baseline:
        os.makedirs(os.path.dirname(blfile), exist_ok=True)
        json.dump(newbl, open(blfile, "w"), indent=0, sort_keys=True)
    tot_time = sum(g["time"] for g in goals)
    level = "proof" if goals and prop not in EXPLORE else "other"
    names = {}
    for p in parts:
        for n, (q, inl, called) in p.get("funcs", {}).items():
            names[n] = q
    cov = {"obligations": len(goals), "discharged": discharged,
           "checker_cmd": "python3 engine/check.py %s --tier %s (why3 1.6.0 split_vc; z3 4.8.12, z3 5.3.2, cvc5 1.1.2)" % (prop, tier),
           "trusted_base": ["why3 VC generation", "z3 / cvc5", "clang AST", "engine/tr.py extraction (see DESIGN.md)"] + sorted(assumptions),
           "functions_under_contract": sorted("%s = %s" % (n, names.get(n, "?")) for n in fns_proved),
           "functions_inlined_from_source": sorted(inlined),
           "functions_bounded_only": fns_bounded,
           "by_solver": solvers, "solver_seconds": round(tot_time, 1),
           "vacuity_checks": vac_checked, "vacuity_failures": vac_bad,
           "prelude_obligations": len(prelude.goals) if prelude else 0,
           "prelude_discharged": sum(g["status"] == "valid" for g in prelude.goals) if prelude else 0,
           "native": {"bound": nat.get("bound"), "evaluations": nat.get("evaluations", 0), "distinct_nontrivial": nat.get("distinct", 0),
                      "samples": nat.get("samples", []), "note": "bounded; never counted as proved"},
           "explanation": "%d obligations of %d functions extracted from /repo, %d discharged; bounded native run as stand-in for the rest" % (len(goals), len(fns_proved), discharged)}
    cov["samples"] = nat.get("samples", []) or ["%s: %s" % (g["fn"], g["expl"]) for g in goals[:3]]
    cov["undecided_obligations"] = ["%s#%d %s" % (g["fn"], g["idx"], g["expl"]) for _, g in undecided]
    if errors:
        cov["machinery_errors"] = errors
    ev["level"] = level
    ev["coverage"] = cov
    ev["assumptions"] = sorted(assumptions)
    vio = []
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    if nat.get("fail"):
        f = os.path.join(rdir, prop + "-native.txt")
        with open(f, "w") as o:
            o.write("property %s: failing input found by native/%s.cpp (seed %d, tier %s)\n\n%s\n" % (prop, prop, seed, tier, nat["fail"]))
            o.write("\nrun again: VERIF_SEED=%d python3 /verif/engine/check.py %s --tier %s --no-proof\n" % (seed, prop, tier))
            for p, g in failed:
                o.write("failed obligation: %s (%s) %s %s\n" % (g["fn"], names.get(g["fn"]), g["expl"], "; ".join(g["outs"])))
        vio.append(("", f, nat["fail"].split("\n")[0]))
    elif failed:
        f = os.path.join(rdir, prop + "-obligation.txt")
        with open(f, "w") as o:
            o.write("property %s: obligations that are not discharged on the current source\n" % prop)
            for p, g in failed:
                o.write("\nobligation: function %s (%s), goal %d: %s\n" % (g["fn"], names.get(g["fn"]), g["idx"], g["expl"]))
                o.write("verifier: %s\n" % "; ".join(g["outs"]))
                o.write("extracted code:\n%s\n" % p["text"].get(g["fn"], "(lemma)"))
        vio.append((" no-failing-input-found", f, "%s: %s" % (failed[0][1]["fn"], failed[0][1]["expl"])))
    ev["violations"] = len(vio)
    ev["wall_s"] = round(time.time() - t0, 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged, %d functions under contract, %d bounded only, %d undecided; native %s evaluations, %.0fs" %
          (prop, discharged, len(goals), len(fns_proved), len(fns_bounded), len(undecided), nat.get("evaluations", 0), ev["wall_s"]))
    for x in fns_bounded:
        print("  bounded only:", x)
    for _, g in undecided:
        print("  undecided (source unchanged): %s#%d %s %s" % (g["fn"], g["idx"], g["expl"], g["outs"][-1:]))
    for e in errors:
        print("  machinery: " + e)
    for key, what in known_findings(prop):
        if any(k.startswith(key) for k in nat.get("known", [])) or not nat.get("present"):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for k in nat.get("known", []):
        if not any(k.startswith(key) for key, _ in known_findings(prop)):
            print("  harness reports an unlisted finding: " + k)
            f = os.path.join(rdir, prop + "-native.txt")
            open(f, "w").write("unlisted finding %s\n" % k)
            vio.append(("", f, k))
    if vac_bad:
        print("  VACUOUS hypotheses in: %s" % vac_bad)
    if vio:
        for sfx, f, what in vio:
            print("  " + what)
            print("VIOLATION property=%s replay=%s%s" % (prop, f, sfx))
        return 1
    if nat.get("error"):
        print("  native: " + nat["error"])
        # the tree does not build against the harness: nothing is shown by it
        if not goals or discharged < len(goals):
            return 2
    if not goals and not nat.get("ok"):
        return 2
    return 0


EXPLORE = set()

if __name__ == "__main__":
    sys.exit(main())
