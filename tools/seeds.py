#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions below, after trying each change in a copy of /repo.

    seeds.py            make every missing one
    seeds.py ID...      make these again
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
sys.path.insert(0, os.path.join(V, "tools"))
from seedlist import SEEDS

def sh(c, cwd=W, t=600):
    try:
        r = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def tests():
    rc, out = sh("cargo test --offline 2>&1")
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    got = {l.split()[1] for l in out.splitlines() if l.startswith("test ") and l.endswith("... ok")}
    miss = [w for w in want if not any(w.endswith(g) or g.endswith(w.split("::", 1)[-1]) for g in got)]
    return miss, out

def main():
    ids = sys.argv[1:] or [s["id"] for s in SEEDS if not os.path.exists(os.path.join(V, "seeded", s["id"], "meta.json"))]
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    sh("git checkout -q . && cargo build --offline")
    for s in SEEDS:
        if s["id"] not in ids:
            continue
        d = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copy(os.path.join(V, "tools", "mq.py"), d)
        open(os.path.join(d, "demo.py"), "w").write("from mq import *\n" + s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\nexec timeout 120 python3 -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        sh("git checkout -q . && cargo build --offline")
        rc0, o0 = sh(os.path.join(d, "demo.sh"))
        orig = True
        for f, a, b in s["edits"]:
            p = os.path.join(W, f)
            x = open(p).read()
            if x.count(a) != 1:
                print(s["id"], "edit text occurs", x.count(a), "times:", a[:60]); break
            open(p, "w").write(x.replace(a, b))
        else:
            rc, diff = sh("git diff")
            rcb, ob = sh("cargo build --offline 2>&1")
            if rcb:
                print(s["id"], "does not build", ob[-1500:]); shutil.rmtree(d); continue
            miss, out = tests()
            rc1, o1 = sh(os.path.join(d, "demo.sh"))
            # the removed lines come from the original repository
            mine = []
            for f in {e[0] for e in s["edits"]}:
                _, bl = sh("git blame -s HEAD -- %s" % f)
                new = [l for l in bl.splitlines() if not l.startswith("^") and not l.startswith("93be476")]
                rem = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
                for r in rem:
                    if r and any(r == n.split(") ", 1)[-1].strip() for n in new):
                        mine.append(r)
            ok = rc0 == 0 and rc1 not in (0, 124) and not miss
            print(s["id"], "OK" if ok else "BAD", "clean", rc0, "patched", rc1, "missing tests", miss[:2], "not original:", mine[:2])
            if rc0 or rc1 == 0 or rc1 == 124:
                print("   ", o0[-300:], "|", o1[-300:])
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            if not ok:
                shutil.rmtree(d)
            continue
        shutil.rmtree(d)
    shutil.rmtree(W, ignore_errors=True)

main()
