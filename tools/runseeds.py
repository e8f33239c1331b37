#!/usr/bin/env python3
"""Development tool: applies each seeded change to /repo, runs the check of its property, undoes it.

  runseeds.py [id ...] [--props C01,C02]
"""
import glob, json, os, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = None
ids = []
for a in sys.argv[1:]:
    if a.startswith("--props="):
        props = a[8:].split(",")
    else:
        ids.append(a)
for d in sorted(glob.glob(V + "/seeded/*/")):
    i = os.path.basename(d[:-1])
    if ids and i not in ids:
        continue
    p = json.load(open(d + "meta.json"))["property"]
    if subprocess.run(["git", "-C", "/repo", "apply", d + "patch.diff"]).returncode:
        print(i, "DOES NOT APPLY", flush=True)
        continue
    try:
        for q in props or [p]:
            t = time.time()
            r = subprocess.run([sys.executable, V + "/check.py", q], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=V)
            msg = [l for l in r.stdout.splitlines() if not l.startswith(("VIOLATION", "KNOWN"))]
            print(f"{i} {q} rc={r.returncode} {time.time() - t:.0f}s {'' if r.returncode == 1 else 'MISSED '}{(msg or ['?'])[-1][:230]}", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
