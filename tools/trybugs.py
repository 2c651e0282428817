"""trybugs.py [id...] [--prop Cxx]: runs the property's check on a scratch copy with each seeded change"""
import json, os, shutil, subprocess, sys, time
args = sys.argv[1:]
prop = None
if "--prop" in args:
    k = args.index("--prop"); prop = args[k + 1]; del args[k:k + 2]
ids = args or sorted(os.listdir("/verif/seeded"))
for i in ids:
    d = "/verif/seeded/" + i
    p = prop or json.load(open(d + "/meta.json"))["property"]
    W = "/tmp/trybug_%s_%d" % (i, os.getpid())
    shutil.copytree("/repo", W)
    r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=W, capture_output=True, text=True)
    if r.returncode:
        print(i, "PATCH FAILS", r.stderr); shutil.rmtree(W); continue
    t = time.time()
    r = subprocess.run(["python3-vt", "run.py", p], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=W, VERIF_EVIDENCE=W))
    lines = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "counterexample", "INCON", "ERROR"))]
    print("%-32s %s rc=%d %.0fs %s" % (i, p, r.returncode, time.time() - t, "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR " + r.stdout[-300:] + r.stderr[-1000:]))
    for l in lines[:6]:
        print("      ", l[:230])
    shutil.rmtree(W)
