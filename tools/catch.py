#!/usr/bin/env python3
"""catch.py [--all] [ID ...]: applies each planted bug to /repo, runs its property's check (--all: every
check) and undoes it. Not used by any check."""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = ["C%02d" % i for i in range(1, 25) if os.path.exists("/verif/MANIFEST.json") and "C%02d" % i in open("/verif/MANIFEST.json").read()]
args = sys.argv[1:]
every = "--all" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(VERIF + "/seeded"))
for i in ids:
    d = os.path.join(VERIF, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        r = []
        for p in PROPS if every else [prop]:
            t = time.time()
            q = subprocess.run([sys.executable, "run_check.py", p], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            v = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION property=%s " % p)]
            r.append((p, q.returncode, bool(v), time.time() - t, q.stdout))
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    own = [x for x in r if x[0] == prop][0]
    caught = own[1] == 1 and own[2]
    print("%-22s %s %s rc=%d %.0fs%s" % (i, prop, "CAUGHT" if caught else "MISSED", own[1], own[3],
          " also: " + " ".join(x[0] for x in r if x[0] != prop and x[1] == 1 and x[2]) + " odd: " + " ".join("%s=%d" % (x[0], x[1]) for x in r if x[1] not in (0, 1)) if every else ""), flush=True)
    if not caught:
        print("   " + own[4][-600:].replace("\n", "\n   "), flush=True)
