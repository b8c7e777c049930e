#!/usr/bin/env python3
"""seedtest.py [ID|Pxx ...]: apply every seeded change to a scratch copy of /repo and run its property's check there."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(d):
    b = os.path.join(V, "seeded", d)
    prop = json.load(open(b + "/meta.json"))["property"]
    w = "/tmp/seedtest/" + d
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s; cp /repo/Cargo.lock %s/" % (w, w), shell=True, check=True)
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + w, b + "/patch.diff"], cwd="/", capture_output=True, text=True)
        if r.returncode:
            r = subprocess.run(["patch", "-p1", "-s", "-i", b + "/patch.diff"], cwd=w, capture_output=True, text=True)
            if r.returncode:
                return d, prop, "PATCH DOES NOT APPLY", r.stderr + r.stdout
        r = subprocess.run([sys.executable, V + "/check.py", prop], env=dict(os.environ, GPF_REPO=w), capture_output=True, text=True)
        ok = r.returncode == 1 and "VIOLATION property=" + prop in r.stdout
        return d, prop, "caught" if ok else "MISSED(%d)" % r.returncode, r.stdout[-700:] + r.stderr[-300:]
    finally:
        shutil.rmtree(w, ignore_errors=True)


ids = sorted(os.listdir(V + "/seeded"))
sel = sys.argv[1:]
ids = [i for i in ids if not sel or i in sel or json.load(open(V + "/seeded/%s/meta.json" % i))["property"] in sel]
with ThreadPoolExecutor(4) as ex:
    for d, p, r, o in ex.map(one, ids):
        print("%-28s %s %s" % (d, p, r))
        for l in o.splitlines():
            if l.startswith("  "):
                print("      " + l.strip()[:220])
                break
        else:
            if "caught" not in r:
                print("      " + o[-400:].replace("\n", " | "))
        sys.stdout.flush()
