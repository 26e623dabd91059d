#!/usr/bin/env python3
"""Confirm a planted bug in a scratch copy and store it: mkseed.py SPEC.py [id ...]
SPEC defines SEEDS = [dict(id, property, file, edits=[(old, new)], needs, breaks, demo)]"""
import json, os, shutil, subprocess, sys, hashlib

REPO, OUT = "/repo", "/verif/seeded"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)


def build(d):
    return sh("mkdir -p /tmp/w/fb && rm -rf /tmp/w/fb/* && cp VolterraBasis/fkernel.f90 /tmp/w/fb/ && cd /tmp/w/fb && PATH=/opt/venv/bin:$PATH %s -m numpy.f2py -c fkernel.f90 -m fkernel -llapack --build-dir /tmp/w/fb/m && rm -f %s/VolterraBasis/fkernel*.so && cp fkernel*.so %s/VolterraBasis/" % (PY, d, d), d)


def tests(d):
    r = sh("%s -m pytest -q -p no:cacheprovider -p no:benchmark tests/test_basis.py 2>&1 | tail -3" % PY, d, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg"))
    return r.stdout


def demo(d, folder):
    return sh("bash %s/demo.sh" % folder, d, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg"), timeout=300)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    want = sys.argv[2:]
    base = tests(REPO)
    print("base tests:", base.strip().splitlines()[-1])
    for s in spec["SEEDS"]:
        if want and s["id"] not in want:
            continue
        d = "/tmp/w/seed"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d, symlinks=True)
        edits = s["edits"] if isinstance(s["edits"], dict) else {s["file"]: s["edits"]}
        ok = True
        for f, es in edits.items():
            p = os.path.join(d, f)
            t = open(p).read()
            for old, new in es:
                if t.count(old) < 1:
                    print(s["id"], "text not found:", old); ok = False; continue
                i = s.get("nth", 0)
                parts = t.split(old)
                t = old.join(parts[: i + 1]) + new + old.join(parts[i + 1 :])
            open(p, "w").write(t)
        if not ok:
            continue
        diff = sh("git diff", d).stdout
        folder = os.path.join(OUT, s["id"])
        os.makedirs(folder, exist_ok=True)
        open(folder + "/patch.diff", "w").write(diff)
        open(folder + "/demo.sh", "w").write('#!/bin/bash\n# cwd: the repository\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        open(folder + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(folder + "/meta.json", "w"), indent=1)
        if any(f.endswith("f90") for f in edits):
            r = build(d)
            if r.returncode:
                print(s["id"], "build failed", r.stderr[-500:]); continue
        t = tests(d)
        r0, r1 = demo(REPO, folder), demo(d, folder)
        print(s["id"], s["property"], "tests:", t.strip().splitlines()[-1], "demo clean:", r0.returncode, "demo bug:", r1.returncode, (r0.stdout + r0.stderr)[-300:] if r0.returncode else "")
        shutil.rmtree(d, ignore_errors=True)


main()
