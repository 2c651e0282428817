"""C11: decoding."""
from .c10 import *

BOUNDS = "all 2^256 inputs"
EXPLAIN = ("SetRistretto is executed on 32 symbolic bytes over abstract field values; the comparison of the input with its canonical form is abstracted to one boolean (shown equivalent by a "
           "bit-vector query); in every case the solver shows that acceptance implies all conditions of RFC 9496 decoding together with the prescribed coordinates, and rejection that one condition fails and that the coordinates are zero.")
ASSUME = ["the contracts of the field operations decided in C01, C02 and C03", "i is not a square (computed)"]

CANON = tm.var("canonical", BOOL)


def canonical(ts, bs, S):
    """replaces the comparison of the bytes bs with the bytes of S by CANON"""
    fresh = [tm.var("cb%d" % i, U8) for i in range(32)]
    env = {fev.fbyte(S, i): fresh[i] for i in range(32)}
    want = tm.band(*[tm.cmp("eq", b, c) for b, c in zip(bs, fresh)])
    bset = set(bs)
    sup, new = {}, {}

    def attempt(u):
        v = ff.fsubst([u], env)[0]
        for neg in (False, True):
            w = tm.bnot(want) if neg else want
            k = tm.bnot(CANON) if neg else CANON
            if u.ty == BOOL:
                g = tm.bor(tm.band(v, tm.bnot(w)), tm.band(w, tm.bnot(v)))
            else:
                g = tm.bnot(tm.cmp("eq", v, tm.b2i(w, u.ty)))
                k = tm.b2i(k, u.ty)
            if bvunsat(g):
                return k
        return None
    for u in tm.subterms(list(ts)):
        args = [x for x in u.args if isinstance(x, T)]
        if u in bset or (u.op == "fby" and u.args[0] is S):
            sup[u.id], new[u.id] = frozenset([u]), u
            continue
        if u is S:
            sup[u.id], new[u.id] = frozenset(), u
            continue
        r = frozenset().union(*[sup[x.id] for x in args]) if args else frozenset()
        if len(r) < 64 or u.ty == FTY:
            sup[u.id] = r if u.ty != FTY else frozenset()
            new[u.id] = ff.frebuild(u, [new[x.id] if isinstance(x, T) else x for x in u.args]) if args else u
            continue
        if u.op in ("band", "bor"):
            part = [x for x in args if sup[x.id]]
            rest = [new[x.id] for x in args if not sup[x.id]]
            f = tm.band if u.op == "band" else tm.bor
            k = attempt(f(*part))
            if k is not None:
                sup[u.id], new[u.id] = frozenset(), f(k, *rest)
                continue
        else:
            k = attempt(u)
            if k is not None:
                sup[u.id], new[u.id] = frozenset(), k
                continue
        sup[u.id] = r
        new[u.id] = ff.frebuild(u, [new[x.id] if isinstance(x, T) else x for x in u.args])
    return [new[t.id] for t in ts]


def bvunsat(g, timeout=20):
    return g is FALSE or solve.prove_bv(tm.bnot(g), timeout=timeout)[0] == "proved"


def vpoly(s):
    ss = sq(s)
    return N_(A_(M_(D, sq(S_(ONE, ss))), sq(A_(ONE, ss))))


def leaf_decode(S):
    ss = sq(S)
    u1, u2 = S_(ONE, ss), A_(ONE, ss)
    v = vpoly(S)

    def leaf(c, terms, bools, path):
        X, Y, Z, T, r = terms
        ok, can = bools
        if ok is TRUE:
            if can is not TRUE:
                return "accepts a non-canonical field element"
            if not c.sign(S, False):
                return "accepts a negative field element"
            if not c.zero(S_(Z, ONE)):
                if not c.nonzero(Z):
                    return "Z may be 0"
            if not c.nonzero(Y):
                return "accepts y = 0"
            if not c.zero(S_(M_(Y, u2), M_(Z, u1))) or not c.nonzero(u2):
                return "y coordinate"
            if not c.zero(S_(fmuls(X, X, v), fmuls(fc(4), ss, Z, Z))) or not c.nonzero(v):
                return "x coordinate"
            if not c.zero(S_(M_(X, Y), M_(Z, T))):
                return "XY != ZT"
            zi = ONE
            if not c.zero(S_(Z, ONE)):
                return "Z is not 1"
            if not c.sign(X, False):
                return "x may be negative"
            if not c.sign(M_(X, Y), False):
                return "xy may be negative"
            if not c.zero(S_(S_(sq(Y), sq(X)), A_(ONE, fmuls(D, X, X, Y, Y)))):
                return "not on the curve"
            return None
        if not all(c.zero(x) for x in (X, Y, Z, T)):
            return "the receiver is not cleared on rejection"
        if can is not TRUE or c.sign(S, True):
            return None
        cls = [w for b, w, k, y in c.roots if k == "r" and c.zero(S_(b, fmuls(v, u2, u2)))]
        if "a=0" in cls or "nonsquare" in cls:
            return None
        if c.zero(u1):
            return None
        x0 = fmuls(fc(2), S, r, u2)
        y0 = fmuls(u1, r, r, u2, v)
        for x in (x0, N_(x0)):
            if c.sign(x, False) and c.sign(M_(x, y0), True):
                return None
        return "rejects a valid encoding"
    return leaf


def goal_dec(ctx, tag, kind, m):
    B = Backend(ctx, tag)
    n = TN(kind, m)
    if n not in B.p.funcs:
        return unknown("no such method")
    if ff.fsq(I_) is not FALSE:
        return unknown("i is a square")
    R = fev.FRun(B, 3)
    ex, st = R.ex, R.st
    bs = bytesvars("b", 32)
    S = R.frombytes(bs)
    a = R.obj("a", R.struct(*[fv("old%d" % j) for j in range(4)]))
    b = R.obj("b", bs)
    st, ret = ex.call1(st, n, [a, b])
    fns = fnames(ex) + sorted(R.used)
    if ex.panics or ex.load(st, b) != bs:
        return unknown("panic or input changed", functions=fns)
    return decide(B, tag, fns, bs, S, ret, ex.load(st, a), R)


def decide(B, tag, fns, bs, S, ret, limbs, R):
    flat = [t for c in limbs for t in c]
    ts = canonical([ret] + flat, bs, S)
    n = len(limbs[0])
    # after the abstraction nothing depends on the single bytes any more
    val = [R.recover(tuple(ts[1 + n * j:1 + n * (j + 1)])) for j in range(4)]
    ok = fev.boolnf(ts[0])
    r = R.root("r", fmuls(vpoly(S), sq(A_(ONE, sq(S)))))
    samples = []
    for j, s in enumerate([0, 1, ref.p - 1, 2, 4, ref.I, ref.p - ref.I, 3] + [int.from_bytes(ref.encode(ref.mul(k, ref.BASE)), "little") for k in range(1, 12)] + [7**j for j in range(2, 40)]):
        samples += [{S: s, CANON: True}, {S: s, CANON: False}]
    sp = fev.Split(samples=samples)
    fails = sp.run(val + [r], leaf_decode(S), [ok, CANON])
    if not fails:
        return proved(functions=fns, sub=sp.leaves)
    cases = []
    for e in sp.cex:
        s = e.get(S, 0)
        cases += [case(tag, ref.b32(s)), case(tag, ref.b32(s + 2**255))]
        if s < 19:
            cases.append(case(tag, ref.b32(s + ref.p)))
    return dict(status="unknown", detail=fails[0], functions=fns, cases=cases)


def goals(ctx):
    out = []
    for tag in ctx.progs:
        lab = "default" if not tag else tag
        for k, m in (("EP", "SetRistretto"), ("P", "SetBytes")):
            out.append(("%s.%s[%s]" % (k, m, lab), goal_dec, dict(tag=tag, kind=k, m=m)))
    return out


JUNK = {"": [["5", "0", "0", "0", "0"]] * 4, "forcegeneric": [["5"] + ["0"] * 9] * 4}


def case(tag, b):
    P = ref.decode(b)
    h = b.hex()
    vs = [["e", "EP", JUNK[tag]], ["p", "P", JUNK[tag]], ["b", "b32", h], ["o", "b32", "00" * 32]]
    steps = [{"m": "EP.SetRistretto", "a": ["e", "b"], "r": ["r0"]}, {"m": "P.SetBytes", "a": ["p", "b"], "r": ["r1"]}]
    exp = {"r0": ["bool", P is not None], "r1": ["bool", P is not None], "b": ["hex", h]}
    if P is not None:
        steps.append({"m": "P.BytesInto", "a": ["p", "o"]})
        exp.update({"e": ["point", [str(x) for x in P]], "p": ["point", [str(x) for x in P]], "o": ["hex", h]})
    else:
        exp.update({"e": ["fes", [0] * 4], "p": ["fes", [0] * 4]})
    return {"tags": [tag], "prog": {"vars": vs, "steps": steps, "out": list(exp)}, "expect": exp, "note": "decoding of %s" % h}


def inputs(ctx):
    r = rng(ctx, "c11")
    p = ref.p
    vals = [x for s in range(0, 24) for x in (s, p - s, p + s, s + 2**255, p - s + 2**255)] + [ref.I, p - ref.I, ref.I + 2**255]
    vals += [2**255 - 1, 2**256 - 1, 2**255 + p - 1, 2**254, 2**255 + 2**254]
    for j in range(8, 256, 8):
        vals += [2**j, 2**j - 1, 2**j - 2, p - 2**j, p + 1 - 2**j]
    for k in [0, 1, 2, 3] + [r.randrange(ref.l) for _ in range(30 if not ctx.thorough else 400)]:
        s = int.from_bytes(ref.encode(ref.mul(k, ref.BASE)), "little")
        vals += [s, (p - s) % p, s + 2**255, s ^ 1, s + 1, s + 2, s ^ (1 << r.randrange(256)), s ^ (1 << r.randrange(256)), (s + p) % 2**256]
    vals += [r.randrange(2**256) for _ in range(40)] + [r.randrange(2**255) & ~1 for _ in range(200 if not ctx.thorough else 3000)]
    for v in getattr(ctx, "hints", []):
        vals.append(v)
        v %= p
        for w in (v, p - v, v ^ 1, v + 2**255, ref.inv(v), v * ref.I % p, ref.inv(v) * ref.I % p):
            vals += [w, p - w]
        for c in (v, p - v):
            for ok, s in (ref.sqrt_ratio((1 - c) % p, (1 + c) % p), ref.sqrt_ratio(c, 1), ref.sqrt_ratio((c - 1) % p, 1), ref.sqrt_ratio((1 - c) % p, 1)):
                vals += [s, p - s]
            for P in coordpoints(c):
                if ref.is_sq(1 - P[1] ** 2):
                    vals.append(int.from_bytes(ref.encode(P), "little"))
    return [ref.b32(v % 2**256) for v in vals]


def pool(ctx):
    out = []
    for tag in ctx.progs:
        out += [case(tag, b) for b in inputs(ctx)]
    return out
