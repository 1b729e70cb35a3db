#!/usr/bin/env python3
"""applies each planted bug to /repo, runs checks (its own, or those named), undoes it.
try_seeded.py [--all-checks | --checks C01,C02] [ID-PREFIX...]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every, named = False, None
if args[:1] == ["--all-checks"]: every = True; args = args[1:]
if args[:1] == ["--checks"]: named = args[1].split(","); args = args[2:]
ids = sorted(d for d in os.listdir(V + "/seeded") if not args or any(d.startswith(a) for a in args))
every_id = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
def git(*a): return subprocess.run(["git", "-C", "/repo", *a], check=True)
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], stdout=subprocess.PIPE).stdout
table = {}
for i in ids:
    d = f"{V}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    git("apply", d + "/patch.diff")
    try:
        for p in (every_id if every else named or [prop]):
            t = time.time()
            r = subprocess.run(["python3", V + "/check.py", p, "--tier", "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env={**os.environ, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
            out = r.stdout.decode(errors="replace")
            hit = r.returncode == 1 and f"VIOLATION property={p} " in out
            word = "CAUGHT" if hit else ("quiet" if r.returncode == 0 else f"rc={r.returncode}")
            table.setdefault(i, []).append((p, word))
            if not every or word != "quiet":
                print(i, prop, "by", p, word, f"{time.time()-t:.0f}s", "" if word == "quiet" else out.strip().splitlines()[0][:200], flush=True)
    finally:
        git("checkout", "-q", "--", ".")
if every:
    for i, l in table.items():
        print(i, "caught by", " ".join(p for p, w in l if w == "CAUGHT") or "nothing")
