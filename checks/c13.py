"""C13: hashing to points."""
from . import msgs
from .c10 import *

BOUNDS = "all 2^256 inputs of the map; for the derivations messages of the lengths given with the goal, SHA-512 and the system random source as arbitrary functions"
EXPLAIN = ("SetRistrettoElligator2 and SetElligator are executed over abstract field values; for every case of the squareness and sign decisions the solver shows that the point equals the one of the RFC 9496 MAP "
           "function (built from the text of the RFC with the same kind of abstract root), that it is on the curve and that no denominator vanishes.")
ASSUME = ["the contracts of the field operations decided in C01, C02 and C03", "i, d/(d+1) and -d are not squares (computed)", "SHA-512 of the standard library is SHA-512"]
c4d = ref.d * 4 * ref.inv(ref.d + 1) % ref.p
KK = (ref.d + 1) * ref.inv(ref.d - 1) % ref.p
c2 = -4 * ref.d * ref.inv((ref.d + 1) ** 2) % ref.p


class Map:
    """RFC 9496 MAP as terms in t"""

    def __init__(self, t):
        self.t = t
        r = self.r = fmuls(I_, t, t)
        u = self.u = M_(A_(r, ONE), fc(ref.ONE_MINUS_D_SQ))
        v = self.v = M_(S_(fc(-1), M_(r, D)), A_(r, D))
        a = M_(u, v)
        y = tm.mk("root", ("ri", a), FTY)
        self.sqr = ff.fsq(a)
        s0 = ff.fite(self.sqr, M_(u, y), fmuls(I_, u, y))
        s = ff.fite(ff.fsg(s0), N_(s0), s0)
        st = M_(s, t)
        s1 = ff.fite(ff.fsg(st), st, N_(st))
        self.s = ff.fite(self.sqr, s, s1)
        c = ff.fite(self.sqr, fc(-1), r)
        self.N = S_(fmuls(c, S_(r, ONE), fc(ref.D_MINUS_ONE_SQ)), v)
        self.w0 = fmuls(fc(2), self.s, v)
        self.w1 = M_(self.N, fc(ref.SQRT_AD_M1))
        self.w2 = S_(ONE, sq(self.s))
        self.w3 = A_(ONE, sq(self.s))


def constants():
    """the non-squares the argument uses"""
    return [k for k, x in (("i", ref.I), ("4d/(d+1)", c4d), ("-4d/(d+1)^2", c2)) if ref.is_sq(x)]


def impossible(c, t, s, v, N):
    """a non-square would be a square"""
    if c.inconsistent():
        return True
    if c.smp:
        return False
    if c.zero(S_(sq(t), I_)):
        return True
    if c.zero(S_(sq(N), fmuls(fc(c4d), v, v))) and (c.nonzero(v)):
        return True
    if c.zero(S_(sq(S_(sq(s), fc(ref.inv(KK)))), fc(c2))):
        return True
    return False


def leaf_map(t, kind):
    def leaf(c, terms, bools, path):
        X, Y, Z, T, s, v, N, w0, w1, w2, w3 = terms

        def nz(a):
            if c.nonzero(a):
                return True
            e = c.copy()
            e.eqs.append(a)
            e.refilter()
            return impossible(e, t, s, v, N)
        if impossible(c, t, s, v, N):
            return None
        if kind == "CP":
            xd, yd = Z, T
        else:
            xd = yd = Z
            if not c.zero(S_(M_(X, Y), M_(Z, T))):
                return "XY != ZT"
        for a, what in ((xd, "denominator of x"), (yd, "denominator of y"), (w1, "denominator of the specified x"), (w3, "denominator of the specified y")):
            if not nz(a):
                return what + " may be 0"
        if not c.zero(S_(M_(X, w1), M_(xd, w0))):
            return "x coordinate"
        if not c.zero(S_(M_(Y, w3), M_(yd, w2))):
            return "y coordinate"
        X2, Y2, A2, B2 = sq(w0), sq(w2), sq(w1), sq(w3)
        if not c.zero(S_(S_(M_(Y2, A2), M_(X2, B2)), A_(M_(A2, B2), fmuls(D, X2, Y2)))):
            return "not on the curve"
        if not c.zero(S_(S_(B2, Y2), fmuls(fc(4), s, s))):
            return "not even"
        return None
    return leaf


TS = [0, 1, 2, ref.p - 1, ref.p - 2, 4, ref.I, ref.p - ref.I] + [3 * 7**j for j in range(1, 24)]
SQRT_ID = ref.sqrt_ratio(ref.I * ref.d, 1)[1]
SPECIAL = [SQRT_ID, -SQRT_ID % ref.p] + [x for a in (ref.I * ref.inv(ref.d),) for x in (ref.sqrt_ratio(a, 1)[1], -ref.sqrt_ratio(a, 1)[1] % ref.p)]


def check_map(B, tag, fns, t, val, kind, mk=None):
    bad = constants()
    if bad:
        return unknown("%s is a square" % bad)
    m = Map(t)
    X, Y, Z, T = val
    xd = Z
    same = ff.fz(S_(M_(X, m.w1), M_(xd, m.w0)))
    sp = fev.Split(samples=[{t: x % ref.p} for x in TS + SPECIAL])
    fails = sp.run(list(val) + [m.s, m.v, m.N, m.w0, m.w1, m.w2, m.w3], leaf_map(t, kind), [same])
    if not fails:
        return proved(functions=fns, sub=sp.leaves)
    return dict(status="unknown", detail=fails[0], functions=fns, cases=[c for e in sp.cex for c in (mk(e.get(t, 0)) if mk else cases(B, tag, e.get(t, 0)))])


def goal_map(ctx, tag):
    B = Backend(ctx, tag)
    n = TN("CP", "SetRistrettoElligator2")
    if n not in B.p.funcs:
        return unknown("no such method")
    R = fev.FRun(B, 3)
    t = fv("t")
    a = R.obj("a", R.struct(*[fv("old%d" % j) for j in range(4)]))
    b = R.obj("b", R.fe(t))
    st, ret = R.ex.call1(R.st, n, [a, b])
    fns = fnames(R.ex) + sorted(R.used)
    if R.ex.panics or R.recover(R.ex.load(st, b)) is not t or ret != a:
        return unknown("panic or operand changed", functions=fns)
    return check_map(B, tag, fns, t, R.vals(st, a), "CP")


def goal_setell(ctx, tag):
    B = Backend(ctx, tag)
    R = fev.FRun(B, 3)
    bs = bytesvars("b", 32)
    a = R.obj("a", R.struct(*[fv("old%d" % j) for j in range(4)]))
    b = R.obj("b", bs)
    st, ret = R.ex.call1(R.st, PT("SetElligator"), [a, b])
    fns = fnames(R.ex) + sorted(R.used)
    if R.ex.panics or R.ex.load(st, b) != bs or ret != a:
        return unknown("panic or operand changed", functions=fns)
    return check_map(B, tag, fns, R.frombytes(bs), R.vals(st, a), "P")


def run_derive(R, fn, n):
    from symgo import stdlib
    a = R.obj("a", R.struct(*[fv("old%d" % j) for j in range(4)]))
    args = [a]
    if fn == "Rand":
        hb = [tm.var("rand_%d" % i, U8) for i in range(32)]
    else:
        m = bytesvars("m", n)
        args.append(Slice(R.ex.new(R.st, m, "m"), (), 0, n, n))
        hb = list(stdlib.hashbytes("sha512", 64, m))
    st, ret = R.ex.call1(R.st, PT(fn), args)
    return st, ret, a, hb


def goal_derive(ctx, tag, fn, n):
    """the hash or random bytes reach SetElligator: the same terms as SetElligator (and Add) applied to them"""
    B = Backend(ctx, tag)
    if PT(fn) not in B.p.funcs:
        return unknown("no such method")
    R = fev.FRun(B, 3)
    st, ret, a, hb = run_derive(R, fn, n)
    fns = fnames(R.ex) + sorted(R.used)
    if ret != a:
        return unknown("result pointer", functions=fns)
    val = R.vals(st, a)
    for g, m, f in R.ex.panics:
        if fn != "Rand" or solve.prove_bv(tm.bnot(tm.band(g, tm.var("rand_ok_0", BOOL))))[0] != "proved":
            return dict(status="unknown", detail="panic path", functions=fns, cases=inputs(B, tag, fn, n, [g for g, _, _ in R.ex.panics]))
    E = fev.FRun(B, 3)
    pts = []
    for half in ((0, 32),) if fn != "DeriveDalek" else ((0, 32), (32, 64)):
        p = E.obj("p%d" % half[0], E.struct(*[fv("x%d" % j) for j in range(4)]))
        E.st, _ = E.ex.call1(E.st, PT("SetElligator"), [p, Ptr(E.ex.new(E.st, tuple(hb[half[0]:half[1]]), "h"))])
        pts.append(p)
    if len(pts) == 2:
        q = E.obj("q", E.struct(*[fv("y%d" % j) for j in range(4)]))
        E.st, _ = E.ex.call1(E.st, PT("Add"), [q] + pts)
        pts = [q]
    want = E.vals(E.st, pts[0])
    if val == want:
        return proved("identical terms", functions=fns)
    return dict(status="unknown", detail="differs from SetElligator of the bytes", functions=fns, cases=inputs(B, tag, fn, n, list(val)))


def inputs(B, tag, fn, n, ts):
    """inputs for both outcomes of every decision on message, hash or random bytes"""
    if fn == "Rand":
        m = [tm.var("rand_%d" % i, U8) for i in range(32)]
        return [case_bytes(B, tag, bytes(e[x] for x in m)) for e in msgs.search(ts, None, m)]
    m = bytesvars("m", n)
    return [case_derive(B, tag, bytes(e[x] for x in m)) for e in msgs.search(ts, "sha512", m)]


def goals(ctx):
    out = []
    for tag in ctx.progs:
        lab = "default" if not tag else tag
        out.append(("CP.SetRistrettoElligator2[%s]" % lab, goal_map, dict(tag=tag)))
        out.append(("P.SetElligator[%s]" % lab, goal_setell, dict(tag=tag)))
        for fn in ("Derive", "DeriveDalek"):
            for n in (0, 1, 31, 32, 33, 64, 200):
                out.append(("P.%s of %d bytes[%s]" % (fn, n, lab), goal_derive, dict(tag=tag, fn=fn, n=n)))
        out.append(("P.Rand[%s]" % lab, goal_derive, dict(tag=tag, fn="Rand", n=0)))
    return out


def pt(P):
    return ["elem", [str(x) for x in P]]


def junk(B):
    return ep(B, (5, 7), 3)


def cases(B, tag, t):
    """the map on a field element, and on its encodings"""
    P = ref.elligator_fe(t)
    out = []
    f = limbs_of(B, t)
    out.append({"tags": [tag], "prog": {"vars": [["c", "CP", junk(B)], ["f", "FE", f], ["e", "EP", junk(B)]],
                                        "steps": [{"m": "CP.SetRistrettoElligator2", "a": ["c", "f"]}, {"m": "EP.SetCompleted", "a": ["e", "c"]}], "out": ["e", "f"]},
                "expect": {"e": pt(P), "f": ["raw", f]}, "note": "map of %d" % t})
    for v in {t, t + 2**255} | ({t + ref.p, t + ref.p + 2**255} if t < 19 else set()):
        out.append(case_bytes(B, tag, ref.b32(v)))
    return out


def case_bytes(B, tag, b):
    P = ref.elligator(b)
    h = b.hex()
    return {"tags": [tag], "prog": {"vars": [["p", "P", junk(B)], ["b", "b32", h], ["q", "P", junk(B)]],
                                    "steps": [{"m": "P.SetElligator", "a": ["p", "b"]}, {"m": "drv.rand", "a": ["b"]}, {"m": "P.Rand", "a": ["q"]}], "out": ["p", "b", "q"]},
            "expect": {"p": pt(P), "b": ["hex", h], "q": pt(P)}, "note": "SetElligator and Rand with %s" % h}


def case_derive(B, tag, data):
    import hashlib
    h = hashlib.sha512(data).digest()
    P, Q = ref.elligator(h[:32]), ref.elligator(h[32:])
    return {"tags": [tag], "prog": {"vars": [["p", "P", junk(B)], ["q", "P", junk(B)], ["b", "bytes", data.hex()]],
                                    "steps": [{"m": "P.Derive", "a": ["p", "b"]}, {"m": "P.DeriveDalek", "a": ["q", "b"]}], "out": ["p", "b", "q"]},
            "expect": {"p": pt(P), "b": ["hex", data.hex()], "q": pt(ref.add(P, Q))}, "note": "Derive/DeriveDalek of %d bytes %s" % (len(data), data.hex()[:40])}


def pool(ctx):
    out = []
    for tag in ctx.progs:
        B = Backend(ctx, tag)
        r = rng(ctx, "c13" + tag)
        ts = edge_fes(ctx, 10) + SPECIAL + list(range(40)) + [ref.p - j for j in range(1, 20)] + [2**j for j in range(8, 255, 16)]
        ts += [r.randrange(ref.p) for _ in range(100 if not ctx.thorough else 2000)]
        for v in getattr(ctx, "hints", []):
            out.append(case_bytes(B, tag, ref.b32(v)))
            v %= ref.p
            for w in (v, -v, v * ref.I, ref.inv(v), v + 1, v - 1):
                ts += [w, -w]
            for w in (v, -v, v * ref.I, -v * ref.I, v - 1, 1 - v, (v - 1) * ref.I, (1 - v) * ref.I):
                ts.append(ref.sqrt_ratio(w % ref.p, 1)[1])
        for t in ts:
            out += cases(B, tag, t % ref.p)
        for b in raw_fe_bytes(ctx, 10):
            out.append(case_bytes(B, tag, b))
        for n in list(range(0, 140)) + [200, 255, 256, 1000]:
            out.append(case_derive(B, tag, bytes(r.randrange(256) for _ in range(n))))
    return out
