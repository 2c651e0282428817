"""Builds the SSA dump and the replay driver from /repo's working tree."""
import json
import os
import re
import subprocess
import hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/bwesterb/go-ristretto"
ED = MOD + "/edwards25519"
TAGS = ("", "forcegeneric")


class BuildError(Exception):
    pass


def sh(cmd, cwd, env=None, timeout=600, stdout=None):
    e = dict(os.environ)
    e.update({"GOPROXY": "off", "GOSUMDB": "off", "GOFLAGS": ""})
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if r.returncode:
        raise BuildError("%s: %s" % (" ".join(cmd), r.stderr.decode()[-2000:]))
    return r


def ssagen():
    out = os.path.join(BUILD, "ssagen")
    src = os.path.join(ROOT, "ssagen")
    h = hashlib.sha256()
    for f in sorted(os.listdir(src)):
        h.update(open(os.path.join(src, f), "rb").read())
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return out
    os.makedirs(BUILD, exist_ok=True)
    sh(["go", "build", "-o", out, "."], src, {"GOFLAGS": "-mod=mod"})
    open(stamp, "w").write(h.hexdigest())
    return out


def dump(tag, work):
    """SSA of /repo's working tree for one build tag; returns the path of the dump."""
    path = os.path.join(work, "ssa_%s.json" % tag)
    with open(path, "wb") as f:
        sh([ssagen(), "-dir", REPO, "-tags", tag], REPO, stdout=f)
    return path


SHORT = {ED + ".FieldElement": "FE", ED + ".ExtendedPoint": "EP", ED + ".CompletedPoint": "CP",
         ED + ".ProjectivePoint": "PP", ED + ".NielsPoint": "NP", ED + ".JacobiPoint": "JP",
         ED + ".ScalarMultTable": "ET", MOD + ".ScalarMultTable": "T", MOD + ".Point": "P", MOD + ".Scalar": "S"}


def shortname(n):
    m = re.match(r"^\(\*?(.+)\)\.(\w+)$", n)
    if m:
        return "%s.%s" % (SHORT.get(m.group(1), m.group(1)), m.group(2))
    return n.rsplit(".", 1)[-1]


def overlay(prog, work, tag):
    """Go files that export every function of the two packages to the driver."""
    files = {}
    for pkg, name, sub in ((ED, "edwards25519", "edwards25519/"), (MOD, "ristretto", "")):
        ents = []
        for n, f in sorted(prog["funcs"].items()):
            if f.get("ext") or not f.get("blocks") or "$" in n or "[" in n or "#" in n:
                continue
            m = re.match(r"^\((\*?)%s\.(\w+)\)\.(\w+)$" % re.escape(pkg), n)
            if m:
                ents.append('"%s": (%s%s).%s,' % (shortname(n), m.group(1), m.group(2), m.group(3)))
            else:
                m = re.match(r"^%s\.(\w+)$" % re.escape(pkg), n)
                if m and m.group(1) != "init":
                    ents.append('"%s%s": %s,' % ("" if sub else "root.", m.group(1), m.group(1)))
        src = "package %s\n\nvar VerifFuncs = map[string]interface{}{\n%s\n}\n" % (name, "\n".join(ents))
        vs = []
        for g in prog["globals"]:
            m = re.match(r"^%s\.(\w+)$" % re.escape(pkg), g)
            if m and not m.group(1).startswith("init") and m.group(1) != "_":
                vs.append('"%s": &%s,' % (m.group(1), m.group(1)))
        src += "\nvar VerifVars = map[string]interface{}{\n%s\n}\n" % "\n".join(vs)
        p = os.path.join(work, "zz_%s_%s.go" % (name, tag))
        open(p, "w").write(src)
        files[os.path.join(REPO, sub + "zz_verif_export.go")] = p
    ov = os.path.join(work, "overlay_%s.json" % tag)
    json.dump({"Replace": files}, open(ov, "w"))
    return ov


def driver(tag, work, prog, cover=False, race=False, cref=False):
    out = os.path.join(work, "driver_%s%s" % (tag, "_cover" if cover else "_race" if race else "_cref" if cref else ""))
    ov = overlay(prog, work, tag)
    cmd = ["go", "build", "-overlay", ov, "-tags", "crefdrv" if cref else tag, "-o", out]
    if cover:
        cmd += ["-cover", "-covermode=atomic", "-coverpkg=%s,%s" % (MOD, ED)]
    if race:
        cmd.append("-race")
    src = os.path.join(ROOT, "driver")
    if REPO != "/repo":
        mf = os.path.join(work, "drv.mod")
        open(mf, "w").write(open(os.path.join(src, "go.mod")).read().replace("=> /repo", "=> " + REPO))
        cmd += ["-modfile", mf]
    sh(cmd + ["."], src)
    return out


def trace_driver(tag, work, prog):
    """the driver over an instrumented copy of the sources"""
    d = os.path.join(work, "instr_%s" % tag)
    os.makedirs(d, exist_ok=True)
    sh([ssagen(), "-dir", REPO, "-tags", tag, "-instr", d], REPO)
    ins = json.load(open(os.path.join(d, "instr.json")))
    ov = json.load(open(overlay(prog, d, tag)))
    ov["Replace"].update(ins["Replace"])
    src = os.path.join(ROOT, "driver")
    s = os.path.join(d, "sites.go")
    open(s, "w").write("//go:build veriftrace\n\npackage main\n\nvar sites = []string{%s}\n" % ", ".join(json.dumps(x) for x in ins["Sites"]))
    ov["Replace"][os.path.join(src, "zz_sites.go")] = s
    f = os.path.join(d, "overlay.json")
    json.dump({"Replace": ov["Replace"]}, open(f, "w"))
    out = os.path.join(work, "driver_%s_trace" % tag)
    cmd = ["go", "build", "-overlay", f, "-tags", ",".join(t for t in (tag, "veriftrace") if t), "-o", out]
    if REPO != "/repo":
        mf = os.path.join(work, "drv.mod")
        open(mf, "w").write(open(os.path.join(src, "go.mod")).read().replace("=> /repo", "=> " + REPO))
        cmd += ["-modfile", mf]
    sh(cmd + ["."], src)
    return out


class Driver:
    """One driver process; run(list of programs) -> list of results."""

    def __init__(self, path, timeout=120):
        self.path, self.timeout = path, timeout

    def run(self, progs, timeout=None):
        if not progs:
            return []
        data = "".join(json.dumps(p) + "\n" for p in progs).encode()
        try:
            r = subprocess.run([self.path], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout or self.timeout)
            lines = r.stdout.decode().splitlines()
        except subprocess.TimeoutExpired as e:
            lines = (e.stdout or b"").decode().splitlines()
        res = [json.loads(x) for x in lines]
        while len(res) < len(progs):
            # the process died or hung on this program
            res.append({"crash": True})
        return res
