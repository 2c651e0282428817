"""Replays cases on the real code and compares with the reference.

A case is {"tags": [..], "prog": {...driver program...}, "expect": {var: [kind, ...]}, "note": ...}."""
import ref

ASSUME = ["go/ssa and ssagen represent the compiled program; the replay of solver models and of the validation pool compares them",
          "z3 is sound"]


def fe_value(limbs):
    if len(limbs) == 1 and isinstance(limbs[0], list):
        limbs = limbs[0]
    n = [int(x) for x in limbs]
    if len(n) == 5:
        return sum(x << (51 * i) for i, x in enumerate(n)) % ref.p
    if len(n) == 10:
        return sum(x << ((51 * i + 1) // 2) for i, x in enumerate(n)) % ref.p
    raise ValueError("field element with %d limbs" % len(n))


def sc_value(limbs):
    return sum(int(x) << (32 * i) for i, x in enumerate(limbs))


def ext_affine(P):
    """affine point of an extended point or a string saying why it is invalid"""
    X, Y, Z, T = (fe_value(c) for c in P)
    if Z == 0:
        return "Z=0"
    if (X * Y - Z * T) % ref.p:
        return "XY != ZT"
    zi = ref.inv(Z)
    P = (X * zi % ref.p, Y * zi % ref.p)
    if not ref.on_curve(P):
        return "not on the curve"
    return P


def compare(kind, want, got):
    """None or a description of the mismatch"""
    if kind == "fe":
        v = fe_value(got)
        return None if v == int(want) % ref.p else "field value %d, expected %d" % (v, int(want) % ref.p)
    if kind == "fes":         # the values of the coordinates
        v = [fe_value(c) for c in got]
        return None if v == want else "coordinates %s, expected %s" % (v, want)
    if kind == "sc":
        v = sc_value(got)
        return None if v == int(want) else "scalar value %d, expected %d" % (v, int(want))
    if kind == "cs":          # scalar of the C package: 32 bytes in words
        v = [int(x) for x in got[0]]
        if len(v) != 32 or any(x > 255 for x in v):
            return "words %s" % v
        v = sum(x << (8 * i) for i, x in enumerate(v))
        return None if v == int(want) else "scalar value %d, expected %d" % (v, int(want))
    if kind == "raw":
        return None if got == want else "value %s, expected %s" % (got, want)
    if kind == "int":
        return None if got is not None and not isinstance(got, bool) and str(got).lstrip("-").isdigit() and int(got) == int(want) else "returned %s, expected %s" % (got, want)
    if kind == "bool":
        return None if got is want else "returned %s, expected %s" % (got, want)
    if kind == "hex":
        return None if got == want else "bytes %s, expected %s" % (got, want)
    if kind == "iserr":
        return None if (got is not None) == want else "error value %s, expected %s" % (got, "an error" if want else "nil")
    if kind == "point":       # this very curve point
        P = ext_affine(got)
        if isinstance(P, str):
            return "invalid point: " + P
        return None if list(P) == [int(x) for x in want] else "point %s, expected %s" % (P, tuple(want))
    if kind == "oneof":
        P = ext_affine(got)
        if isinstance(P, str):
            return "invalid point: " + P
        return None if [str(P[0]), str(P[1])] in want else "point %s, expected one of %s" % (P, want)
    if kind == "elem":        # valid point, same group element
        P = ext_affine(got)
        if isinstance(P, str):
            return "invalid point: " + P
        W = tuple(int(x) for x in want)
        D = ref.sub(P, W)
        return None if D in ref.TORSION4 else "point %s is not equivalent to %s" % (P, W)
    if kind == "cp":          # completed point
        X, Y, Z, T = (fe_value(c) for c in got)
        if Z == 0 or T == 0:
            return "invalid completed point"
        P = (X * ref.inv(Z) % ref.p, Y * ref.inv(T) % ref.p)
        return None if list(P) == [int(x) for x in want] else "completed point %s, expected %s" % (P, tuple(want))
    if kind == "pp":
        X, Y, Z = (fe_value(c) for c in got)
        if Z == 0:
            return "invalid projective point"
        P = (X * ref.inv(Z) % ref.p, Y * ref.inv(Z) % ref.p)
        return None if list(P) == [int(x) for x in want] else "projective point %s, expected %s" % (P, tuple(want))
    if kind == "np":
        a, b, c = (fe_value(x) for x in got)
        x, y = int(want[0]), int(want[1])
        w = ((y + x) % ref.p, (y - x) % ref.p, 2 * ref.d * x * y % ref.p)
        return None if (a, b, c) == w else "niels point %s, expected %s" % ((a, b, c), w)
    if kind == "jp":
        w = [fe_value(c) for c in got]
        return None if w == [int(x) for x in want] else "quartic point %s, expected %s" % (w, want)
    if kind == "jq":          # quartic points over all members of the coset of the point
        P = tuple(int(x) for x in want)
        seen = set()
        for j, q in enumerate(got):
            s, t = (fe_value(c) for c in q)
            if (t * t - (s**4 - 2 * (ref.d - 1) * ref.inv(ref.d + 1) * s * s + 1)) % ref.p:
                return "point %d of %s is not on the quartic" % (j, got)
            if t == 0 or (1 + s * s) % ref.p == 0:
                return "point %d has no Edwards point" % j
            seen.add((2 * s * ref.inv(t * ref.SQRT_AD_M1) % ref.p, (1 - s * s) * ref.inv(1 + s * s) % ref.p))
        W = {ref.add(P, x) for x in ref.TORSION4} - {(0, ref.p - 1)}
        return None if seen == W else "the quartic points lie over %s, expected %s" % (sorted(seen), sorted(W))
    if kind == "set":         # set of field elements given by (mask in other var)
        return None
    raise ValueError(kind)


def eset(want, fes, mask):
    """inverse images: each returned one is non-negative and maps to the point, and the known ones are among them"""
    P = tuple(int(x) for x in want["point"])
    m = int(mask)
    got = [fe_value(f) for j, f in enumerate(fes) if m >> j & 1]
    for f in got:
        if f & 1:
            return "preimage %d is negative" % f
        if ref.sub(ref.elligator_fe(f), P) not in ref.TORSION4:
            return "%d does not map to %s" % (f, P)
    for f in want["have"]:
        if int(f) not in got:
            return "preimage %s of %s is missing" % (f, P)
    if want.get("distinct") and len(set(got)) != len(got):
        return "repeated preimage"
    return None


def canon(kind, v):
    """the value a variable of this type stands for"""
    if v is None:
        return None
    if kind == "FE":
        return fe_value(v)
    if kind in ("EP", "P"):
        return ext_affine(v)
    if kind == "CP":
        X, Y, Z, T = (fe_value(c) for c in v)
        return (X * ref.inv(Z) % ref.p, Y * ref.inv(T) % ref.p) if Z and T else (X, Y, Z, T)
    if kind == "PP":
        X, Y, Z = (fe_value(c) for c in v)
        return (X * ref.inv(Z) % ref.p, Y * ref.inv(Z) % ref.p) if Z else (X, Y, Z)
    if kind in ("NP", "JP", "fe8"):
        return [fe_value(c) for c in v]
    if kind == "jp4":
        return [[fe_value(c) for c in x] for x in v]
    if kind in ("T", "ET"):
        return [[[fe_value(c) for c in y] for y in x] for x in v]
    return v


def races(ctx, tag, cases):
    """runs the cases' programs with the race detector in two goroutines"""
    import json
    import os
    import subprocess
    from symgo import build
    d = getattr(ctx, "racedrv", {})
    ctx.racedrv = d
    if tag not in d:
        try:
            path = build.dump(tag, ctx.work)
            d[tag] = build.driver(tag, ctx.work, json.load(open(path)), race=True)
        except Exception:
            d[tag] = None
    out = []
    for c in cases:
        if d[tag] is None:
            break
        try:
            r = subprocess.run([d[tag]], input=(json.dumps(c["prog"]) + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                               env=dict(os.environ, GORACE="halt_on_error=1 exitcode=66"))
        except subprocess.TimeoutExpired:
            continue
        e = r.stderr.decode(errors="replace")
        if r.returncode == 66 and "DATA RACE" in e:
            out.append((dict(c, tags=[tag]), "%s: [%s] data race when two goroutines do this with shared operands: %s" % (c.get("note", ""), tag or "default", " ".join(e.split())[:300])))
    return out


def leaks(ctx, tag, cases):
    """runs the programs on the instrumented code; reports executions with equal outcome and different traces"""
    import json
    from symgo import build
    d = getattr(ctx, "tracedrv", {})
    ctx.tracedrv = d
    if tag not in d:
        try:
            path = build.dump(tag, ctx.work)
            d[tag] = build.Driver(build.trace_driver(tag, ctx.work, json.load(open(path))))
        except build.BuildError as e:
            d[tag] = None
            print("note: no instrumented build: %s" % str(e)[-300:])
    if d[tag] is None:
        return [], 0
    progs = []
    for c in cases:
        for b in c.get("before", []):
            progs.append((None, b))
        progs.append((c, c["prog"]))
    out, first, n = [], {}, 0
    for (c, p), r in zip(progs, d[tag].run([p for _, p in progs], timeout=600)):
        if "out" not in r:
            continue
        n += 1
        k = p["ct"] + json.dumps(r["out"], sort_keys=True)
        if r.get("leak") and c is not None:
            out.append((dict(c, tags=[tag], before=[first[k]] if k in first else []), "%s: [%s] two inputs with the same outcome execute differently: %s" % (c.get("note", ""), tag or "default", r["leak"])))
        first.setdefault(k, p)
    return out, n


def judge(ctx, cases, tagsel=None):
    """(list of (case, why) that fail on the real code, number of runs)"""
    bad, n = [], 0
    for tag, drv in ctx.drivers.items():
        sel = [c for c in cases if tag in c.get("tags", ["", "forcegeneric"])]
        par = [c for c in sel if c["prog"].get("par") is not None]
        if par:
            bad += races(ctx, tag, par[:12])
            n += len(par[:12])
            sel = [c for c in sel if c["prog"].get("par") is None]
        ct = [c for c in sel if c["prog"].get("ct")]
        if ct:
            b, k = leaks(ctx, tag, ct)
            bad += b
            n += k
            sel = [c for c in sel if not c["prog"].get("ct")]
        for c in [c for c in sel if c.get("dies")]:
            r = drv.run([c["prog"]], timeout=60)[0]
            n += 1
            if "out" in r:
                bad.append((dict(c, tags=[tag]), "%s: [%s] returns normally" % (c.get("note", ""), tag or "default")))
        sel = [c for c in sel if not c.get("dies")]
        res = drv.run([c["prog"] for c in sel])
        crashed = False
        for c, r in zip(sel, res):
            if "fail" in r:
                continue          # the program does not fit this tree (renamed function ...)
            if "crash" in r:
                if not crashed:
                    crashed = True
                    # find out whether it is this program
                    r = drv.run([c["prog"]], timeout=60)[0]
                    if "crash" in r:
                        bad.append((dict(c, tags=[tag]), "%s: [%s] the process crashed or hangs" % (c.get("note", ""), tag or "default")))
                continue
            n += 1
            if "panic" in r:
                if c.get("panic"):
                    continue
                bad.append((dict(c, tags=[tag]), "%s: [%s] panic: %s" % (c.get("note", ""), tag or "default", r["panic"])))
                continue
            if c.get("panic"):
                bad.append((dict(c, tags=[tag]), "%s: [%s] expected a panic" % (c.get("note", ""), tag or "default")))
                continue
            if r.get("globals"):
                bad.append((dict(c, tags=[tag]), "%s: [%s] package variable changed: %s" % (c.get("note", ""), tag or "default", ", ".join(r["globals"]))))
                continue
            for v, e in c["expect"].items():
                try:
                    if e[0] == "same":
                        a, b = canon(e[2], r["out"][v]), canon(e[2], r["out"][e[1]])
                        w = None if a == b else "value %s, but %s with distinct variables" % (a, b)
                    elif e[0] == "eset":
                        w = eset(e[1], r["out"][v], r["out"][e[1]["mask"]])
                    else:
                        w = compare(e[0], e[1], r["out"][v])
                except Exception as x:
                    w = "bad value %r (%s)" % (r["out"].get(v), x)
                if w:
                    bad.append((dict(c, tags=[tag]), "%s: [%s] %s: %s" % (c.get("note", ""), tag or "default", v, w)))
                    break
    return bad, n
