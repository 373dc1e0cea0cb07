#!/usr/bin/env python3
"""measure.py [ID...]: runs the check of each planted bug's property (or those in ID:P01,P02) with the bug in /repo
and notes the outcome in caught.json. Not part of any check."""
import glob, json, os, subprocess, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = H + "/tools/caught.json"
c = json.load(open(f)) if os.path.exists(f) else {}
ids = sys.argv[1:] or [os.path.basename(os.path.dirname(x)) for x in sorted(glob.glob(H + "/seeded/*/meta.json"))]
for i in ids:
    i, _, ps = i.partition(":")
    d = H + "/seeded/" + i
    ps = ps.split(",") if ps else [json.load(open(d + "/meta.json"))["property"]]
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], stdout=subprocess.PIPE).stdout
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        for p in ps:
            t = time.time()
            r = subprocess.run([H + "/check.py", p], stdout=subprocess.PIPE, text=True)
            v = {0: "quiet", 1: "caught"}.get(r.returncode, "no answer")
            c.setdefault(i, {})[p] = v
            print(i, p, v, "%d s" % (time.time() - t), r.stdout[-300:] if r.returncode != 1 else [l for l in r.stdout.splitlines() if "fails" in l or "panic" in l][:2], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    json.dump(c, open(f, "w"), indent=1, sort_keys=True)
