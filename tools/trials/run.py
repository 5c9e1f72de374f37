#!/usr/bin/env python3
"""Tries edits of /repo in a copy and prints which properties' jobs report something.

    run.py refactor_a.py [name...]     behaviour-preserving edits: every line should say "quiet"
    run.py mutants_main.py [name...]   breaking edits: the properties reported
"""
import importlib.util, importlib.machinery, json, multiprocessing, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, os.path.join(ROOT, "engine"))
C = importlib.machinery.SourceFileLoader("check", os.path.join(ROOT, "check")).load_module()


def jobs():
    import registry
    out = []
    for p in registry.PROPS:
        out += [j for j in registry.jobs(p) if j not in out]
    return out


def main():
    import core, models, registry
    f = sys.argv[1]
    spec = importlib.util.spec_from_file_location("m", f if os.path.exists(f) else os.path.join(HERE, f))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    d = tempfile.mkdtemp(prefix="trial")
    C.BUILD = os.path.join(d, "build")
    os.makedirs(C.BUILD)
    C.REPO = os.path.join(d, "repo")
    try:
        for x in m.MUTS:
            name, edits = x[0], x[-1]
            if sys.argv[2:] and name not in sys.argv[2:]:
                continue
            shutil.rmtree(C.REPO, ignore_errors=True)
            os.makedirs(C.REPO)
            subprocess.run("git -C /repo archive HEAD | tar x -C " + C.REPO, shell=True, check=True)
            missing = None
            for a, o, n in edits:
                s = open(os.path.join(C.REPO, a)).read()
                if o not in s:
                    missing = o
                    break
                open(os.path.join(C.REPO, a), "w").write(s.replace(o, n, 1))
            if missing:
                print(name, "does not apply:", missing[:60], flush=True)
                continue
            ff = os.path.join(d, "facts.json")
            if os.path.exists(ff):
                os.remove(ff)
            try:
                C.facts(ff)
            except SystemExit as e:
                print(name, e, flush=True)
                continue
            C.PROG = core.Prog(json.load(open(ff)))
            t, js = time.time(), sorted(jobs(), key=lambda j: j[0] != "conn")
            with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
                res = list(pool.imap_unordered(C.work, js))
            out = {}
            for r in res:
                for v in r["viol"]:
                    for p in registry.PROPS:
                        if registry.counts(p, r["job"], v["key"]):
                            out.setdefault(p, set()).add(v["key"][1])
            for p in registry.PROPS:
                ob = sum(registry.obligations(p, r["job"], r["ob"]) for r in res if tuple(r["job"]) in registry.jobs(p))
                if ob < registry.PROPS[p]["floor"] and p not in out:
                    out[p] = {"floor"}
            print("%-16s %s  [%.0f s]" % (name, {p: sorted(k)[:3] for p, k in sorted(out.items())} or "quiet", time.time() - t), flush=True)
    finally:
        shutil.rmtree(d)


main()
