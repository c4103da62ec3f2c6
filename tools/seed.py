#!/usr/bin/env python3
"""Development helper (no check uses it): confirm planted bugs.
 seed.py make ID PROP FILE <<< 'old\n=====\nnew'   (writes seeded/ID/patch.diff from an edit of /repo, then undoes it)
 seed.py confirm ID ...      build + stable tests + demo with and without the patch
 seed.py check ID ...        run the property's check with the patch applied
"""
import sys, os, subprocess, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def clean(): sh("git -C /repo checkout -- .")
def stable():
    sh("bash /opt/vp/test.sh /tmp/seed_o.json")
    o = json.load(open("/tmp/seed_o.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    return sorted(set(b["stable"]) - set(o["passed"]))
def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    if sh("git -C /repo status --porcelain -uno").stdout.strip(): sys.exit("/repo is not clean")
    for i in ids:
        d = os.path.join(V, "seeded", i); meta = json.load(open(d + "/meta.json"))
        try:
            if cmd == "confirm":
                if not os.environ.get("FAST"):
                    r0 = sh("bash %s/demo.sh" % d, cwd=R)
                    if r0.returncode != 0: print(i, "DEMO FAILS ON CLEAN TREE", r0.stdout.decode()[-800:]); continue
                p = sh("git -C /repo apply %s/patch.diff" % d)
                if p.returncode: print(i, "PATCH", p.stdout.decode()); continue
                r1 = sh("bash %s/demo.sh" % d, cwd=R)
                bad = stable()
                print(i, "demo rc with patch:", r1.returncode, r1.stdout.decode()[-200:].strip(), "| lost tests:", bad[:5], "OK" if r1.returncode and not bad else "REJECT", flush=True)
            elif cmd == "check":
                sh("git -C /repo apply %s/patch.diff" % d)
                t = time.time()
                props = [meta["property"]]
                for pr in props:
                    r = sh("VERIF_SEED=1 VERIF_TIER=quick python3 engine/check.py %s" % pr, cwd=V)
                    o = r.stdout.decode()
                    v = [l for l in o.split("\n") if l.startswith("VIOLATION")]
                    print(i, pr, "rc", r.returncode, v, "%.0fs" % (time.time() - t), flush=True)
                    if os.environ.get("V"): print(o)
        finally:
            clean()
if __name__ == "__main__": main()
