#!/usr/bin/env python3
"""[REPO=dir] seedtest.py [ID...]: for each planted bug, checks the demo on the clean tree, applies the patch to /repo, builds, runs the
existing tests, the demo and the property's quick check, and undoes the patch. Prints one line per bug."""
import json, os, subprocess, sys, glob, re, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fast = "--fast" in sys.argv   # only the check
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
REPO = os.environ.get("REPO", "/repo")   # another copy needs a copy of /verif whose harness/go.mod names it
TMP = subprocess.check_output(["mktemp", "-d"], text=True).strip()
for n in ["env.sh", "build.sh", "test.sh"]:
    t = open("/opt/vp/" + n).read()
    if REPO != "/repo": t = t.replace("/opt/vp/env.sh", TMP + "/env.sh").replace("/repo", REPO)
    open(TMP + "/" + n, "w").write(t)
def clean(): sh(f"git -C {REPO} checkout -- . && git -C {REPO} clean -fdq")
for i in ids:
    d = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    out = [i, meta["property"]]
    demo = lambda: sh(f"bash {d}/demo.sh", cwd=REPO, timeout=300)
    try:
        assert sh(f"git -C {REPO} status --short").stdout == "", "/repo is dirty"
        if not fast:
            r = demo(); out.append("demo-clean=%d" % r.returncode)
            if r.returncode: print(r.stdout[-1500:])
            assert sh(f"git -C {REPO} status --short").stdout == "", "demo leaves files"
        r = sh(f"git -C {REPO} apply {d}/patch.diff")
        if r.returncode: out.append("NOAPPLY " + r.stdout); continue
        if not fast:
            r = sh(f"bash {TMP}/build.sh"); out.append("build=%d" % r.returncode)
            if r.returncode: print(r.stdout[-1500:])
            r = sh(f"bash {TMP}/test.sh {TMP}/res.json"); 
            base = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open(TMP + "/res.json"))
            def passed(x): return set(x.get("passed") or x.get("stable") or x.get("tests") or [])
            miss = passed(base) - passed(res) if passed(base) else None
            out.append("tests=" + ("ok" if miss == set() else "FAIL %s" % sorted(miss)[:3] if miss else "?"))
            r = demo(); out.append("demo-bug=%d" % r.returncode)
            if "build failed" in r.stdout: out.append("DEMO DOES NOT BUILD")
        r = sh(f"bash check.sh {meta['property']} quick", cwd=ROOT)
        v = f"VIOLATION property={meta['property']} " in r.stdout
        out.append("check=%d %s" % (r.returncode, "CAUGHT" if v and r.returncode == 1 else "MISSED"))
        m = re.search(r"(\d+) cases.* ([\d.]+)s", r.stdout); out.append(m.group(0) if m else r.stdout[-300:])
    except AssertionError as e: out.append(str(e))
    finally:
        clean(); sh(f"rm -f {ROOT}/replays/*")
        print(" ".join(out), flush=True)
shutil.rmtree(TMP)
