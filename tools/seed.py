"""seed.py ID: builds seeded/ID from tools/seeds/ID.py-like definition given on stdin (JSON):
{property, needs, breaks, edits:[[file, old, new]...], pkg, tags, test}
Verifies in a scratch copy: builds, repository tests pass, demo passes without and fails with the change."""
import json, os, shutil, subprocess, sys
ident = sys.argv[1]
d = json.load(sys.stdin) if len(sys.argv) < 3 else json.load(open(sys.argv[2]))
W = "/tmp/seedwork_%s" % ident
shutil.rmtree(W, ignore_errors=True)
shutil.copytree("/repo", W)
out = "/verif/seeded/" + ident
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
run = lambda c, **k: subprocess.run(c, shell=True, cwd=W, capture_output=True, text=True, **k)
for f, old, new in d["edits"]:
    p = os.path.join(W, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = run("git diff").stdout
open(out + "/patch.diff", "w").write(diff)
open(out + "/demo_test.go", "w").write(d["test"])
pkg = d.get("pkg", ".")
if d.get("cover"):
    # the executed statements (with counts) must be the same for the inputs A and B
    runs = "\n".join('''for x in A B; do
  go test -overlay "$T/ov.json" -run "TestSeededDemo$x\\$" -count=1 -vet=off -covermode=count -coverpkg=./... -coverprofile="$T/$x.cov" %s %s > "$T/log" 2>&1 || { cat "$T/log"; rc=1; }
  sort "$T/$x.cov" > "$T/$x.txt"
done
cmp "$T/A.txt" "$T/B.txt" || rc=1''' % ("-tags " + t if t else "", pkg) for t in d.get("tags", [""]))
else:
  runs = "\n".join('go test -overlay "$T/ov.json" -run TestSeededDemo -count=1 -vet=off %s %s || rc=1' % ("-tags " + t if t else "", pkg) for t in d.get("tags", [""]))
open(out + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 if the demonstration test passes on the tree in the working directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
export GOFLAGS=-mod=mod GOPROXY=off
echo "{\\"Replace\\": {\\"$PWD/%s/zz_seeded_demo_test.go\\": \\"$D/demo_test.go\\"}}" > "$T/ov.json"
rc=0
%s
rm -r "$T"
exit $rc
''' % (pkg, runs))
json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
ok = True
for tag in ("", "-tags forcegeneric"):
    r = run("go build %s ./... && go test -vet=off -count=1 %s ./..." % (tag, tag))
    print("tests with patch", tag or "default", "ok" if r.returncode == 0 else "FAIL\n" + r.stdout[-700:] + r.stderr[-500:])
    ok &= r.returncode == 0
r = run("bash %s/demo.sh" % out)
print("demo with patch rc", r.returncode, r.stdout[-300:] if r.returncode else "")
if "build failed" in r.stdout or "syntax" in r.stderr: print(r.stdout, r.stderr)
ok &= r.returncode != 0
run("git checkout -- .")
r = run("bash %s/demo.sh" % out)
print("demo without patch rc", r.returncode, r.stdout[-600:] + r.stderr[-300:] if r.returncode else "")
ok &= r.returncode == 0
shutil.rmtree(W)
if not ok:
    print("NOT KEPT"); shutil.rmtree(out)
sys.exit(0 if ok else 1)
