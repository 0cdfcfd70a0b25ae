#!/usr/bin/env python3
"""Planted bugs: write them from the definitions in seeds_*.py and confirm each (builds, stable tests, demo, which check reports it).
usage: seedtool.py [--no-tests] [--checks all|own] id...      (works in /repo itself, which must be clean, and restores it)"""
import glob
import importlib.util
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = "/verif/seeded"
REPO = os.environ.get("SEED_REPO", "/repo")


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def load():
    S = {}
    for f in sorted(glob.glob(os.path.join(HERE, "seeds_*.py"))):
        sp = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        S.update(m.SEEDS)
    return S


def main():
    args = sys.argv[1:]
    notests = "--no-tests" in args
    args = [a for a in args if not a.startswith("--")]
    S = load()
    ids = args or [i for i in S if not os.path.exists(os.path.join(OUT, i, "meta.json"))]
    assert not sh("git", "-C", REPO, "status", "--porcelain").stdout, "/repo is not clean"
    stable = json.load(open("/opt/vp/BASELINE.json"))
    rows = []
    for i in ids:
        s = S[i]
        d = os.path.join(OUT, i)
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s["edits"]:
                p = REPO + "/src/DLMS_SPODES/" + f
                t = open(p, encoding="utf-8", newline="").read()
                if "\r\n" in t:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                assert t.count(old) == 1, (i, f, t.count(old), old)
                open(p, "w", encoding="utf-8", newline="").write(t.replace(old, new))
            diff = sh("git", "-C", REPO, "diff").stdout
            # only original lines may be changed
            base = "63dfdf5"
            for f, old, new in s["edits"]:
                b = sh("git", "-C", REPO, "show", base + ":src/DLMS_SPODES/" + f).stdout.replace("\r\n", "\n")
                gone = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
                for l in gone:
                    if l and l not in b and len(s["edits"]) == 1:
                        print("  WARNING: changes a line that is not original:", l)
            open(d + "/patch.diff", "w", newline="").write(sh("git", "-C", REPO, "diff", "--binary").stdout if False else subprocess.run(["git", "-C", REPO, "diff"], capture_output=True).stdout.decode("utf-8"))
            open(d + "/demo.py", "w").write("from h import mod, refused\n" + s["demo"].strip("\n") + "\n")
            open(d + "/h.py", "w").write(open(HERE + "/h.py").read())
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent\nd=$(cd "$(dirname "$0")" && pwd)\nexec /opt/venv/bin/python "$d/demo.py"\n')
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            b = sh("bash", "/opt/vp/build.sh")
            demo1 = sh("bash", d + "/demo.sh", cwd=REPO)
            tests = "?"
            if not notests:
                if REPO == "/repo":
                    sh("bash", "/opt/vp/test.sh", "/tmp/t.json")
                    r = json.load(open("/tmp/t.json"))
                    passed = set(r.get("passed", []) if isinstance(r, dict) else [])
                    want = set(stable.get("stable_pass", stable.get("stable", stable.get("passed", []))))
                    tests = "ok" if want <= passed and want else "FAIL %s" % sorted(want - passed)[:3]
                else:
                    r = sh("bash", "/tmp/rf/tst.sh", REPO).stdout
                    tests = "ok" if r.startswith("pass") else "FAIL " + r
            pid = s["property"]
            c = sh("python3", "/verif/sa/check.py", pid, env=dict(os.environ, VERIF_REPO=REPO, VERIF_EVIDENCE="/tmp/seed_evidence"))
            hit = "VIOLATION property=%s" % pid in c.stdout
            first = [l for l in c.stdout.splitlines() if l.startswith("violated")][:1]
        finally:
            sh("git", "-C", REPO, "checkout", "--", ".")
        demo0 = sh("bash", d + "/demo.sh", cwd=REPO)
        ok = b.returncode == 0 and tests in ("ok", "?") and demo1.returncode != 0 and demo0.returncode == 0
        print("%-8s %-4s build=%d tests=%s demo clean=%d patched=%d  %s  check rc=%d %s" % (
            i, pid, b.returncode, tests, demo0.returncode, demo1.returncode, "VALID" if ok else "INVALID", c.returncode,
            ("CAUGHT " + first[0][:150]) if hit and c.returncode == 1 else "MISSED " + c.stdout.strip().splitlines()[0][:150] if c.stdout.strip() else "MISSED " + c.stderr[-200:]), flush=True)
        if demo0.returncode:
            print(demo0.stderr[-600:])
        if demo1.returncode == 0 and demo0.returncode == 0:
            print("   demo does not see it:", demo1.stdout[-200:])
        if not ok and b.returncode:
            print(b.stderr[-500:])
    return


main()
