#!/usr/bin/env python3
"""Run the check of each planted bug against a scratch copy of /repo with the bug: catch.py [id ...]
(a registered check always runs against /repo; this only points the same code at a copy, through VSYM_REPO)"""
import json, os, shutil, subprocess, sys, time

OUT = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(OUT))
PY = "/opt/venv/bin/python"
for i in ids:
    f = os.path.join(OUT, i)
    meta = json.load(open(f + "/meta.json"))
    d = "/tmp/w/catch_" + i
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    a = subprocess.run(["git", "apply", f + "/patch.diff"], cwd=d, capture_output=True, text=True)
    if a.returncode:
        print(i, "does not apply", a.stderr[:200]); continue
    if "fkernel.f90" in open(f + "/patch.diff").read():
        fb = "/tmp/w/fb_" + i
        b = subprocess.run("mkdir -p {b} && cp VolterraBasis/fkernel.f90 {b}/ && cd {b} && PATH=/opt/venv/bin:$PATH {py} -m numpy.f2py -c fkernel.f90 -m fkernel -llapack --build-dir {b}/m && rm -f {d}/VolterraBasis/fkernel*.so && cp fkernel*.so {d}/VolterraBasis/".format(b=fb, d=d, py=PY), shell=True, cwd=d, capture_output=True, text=True)
        shutil.rmtree(fb, ignore_errors=True)
        if b.returncode:
            print(i, "build failed"); continue
    t = time.time()
    props = [meta["property"]] if "ALL" not in os.environ else [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
    for p in props:
        r = subprocess.run([PY, "run.py", p, "quick"], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, VSYM_REPO=d, VSYM_PREBUILT="1", VSYM_EVIDENCE="/tmp/w/ev"))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        det = [l for l in r.stdout.splitlines() if l.startswith("  case")]
        if p == meta["property"]:
            F = "/verif/tools/caught.json"
            C = json.load(open(F)) if os.path.exists(F) else {}
            C[i] = "%s: %s" % (p, det[0].strip()[5:].strip()[:90].replace("|", "/") if det else "") if r.returncode == 1 and v else "missed"
            json.dump(C, open(F, "w"), indent=1, sort_keys=True)
        print(i, p, "rc=%d" % r.returncode, "CAUGHT" if r.returncode == 1 and v else "missed", "%.0fs" % (time.time() - t), (det[0][:150] if det else ""), flush=True)
    shutil.rmtree(d, ignore_errors=True)
