"""C14: the inverse map and Lizard."""
from .c13 import *
from . import c13
import hashlib

BOUNDS = "all points of the Jacobi quartic, all field elements, all even points in every projective representation, all 2^128 data blocks; SHA-256 as an arbitrary function"
EXPLAIN = ("elligator2Inverse is executed on a symbolic quartic point: whatever it returns is a non-negative element that maps to the point (soundness), and on the image of a symbolic non-negative element it "
           "returns that element (completeness and uniqueness); ToJacobiQuarticRistretto yields the quartic points over the whole coset; the mask and the eight slots hold the results for those points and their duals; "
           "LizardInto returns data exactly when one preimage carries its checksum.")
ASSUME = ["the contracts of the field operations decided in C01, C02 and C03", "i, d, (d^2-1)/d are not squares (computed)", "SHA-256 of the standard library is SHA-256",
          "known finding: the preimage sqrt(i/d) of the neutral element (where the map has v = 0) is not returned"]
KNOWN_MISSING = ref.sqrt_ratio(ref.I * ref.inv(ref.d), 1)[1]
cS = (ref.d * ref.d - 1) * ref.inv(ref.d) % ref.p
IK = fc(ref.inv(KK))
SQ = fc(ref.SQRT_AD_M1)


def quartic(S, T):
    """T^2 = S^4 - (2/k) S^2 + 1"""
    return S_(sq(T), A_(S_(sq(sq(S)), fmuls(fc(2), IK, S, S)), ONE))


class Rel:
    """the map without roots: u, v, N for the two cases"""

    def __init__(self, t):
        r = self.r = fmuls(I_, t, t)
        self.u = M_(A_(r, ONE), fc(ref.ONE_MINUS_D_SQ))
        self.v = M_(S_(fc(-1), M_(r, D)), A_(r, D))
        k = M_(S_(r, ONE), fc(ref.D_MINUS_ONE_SQ))
        self.N1 = S_(N_(k), self.v)
        self.N2 = S_(M_(r, k), self.v)
        self.t = t

    def eqs(self, case, S, T):
        if case == 1:       # u/v = S^2
            return [S_(fmuls(S, S, self.v), self.u), S_(M_(T, self.v), self.N1)]
        return [S_(fmuls(S, S, self.v), fmuls(I_, self.u, self.t, self.t)), S_(M_(T, self.v), self.N2)]


def bad_constants():
    return [k for k, x in (("i", ref.I), ("d", ref.d), ("(d^2-1)/d", cS), ("4d/(d+1)", c4d)) if ref.is_sq(x)]


def qsamples(S, T):
    out = []
    for f in [2, 4, 6, 10, 12, ref.p - 1, 3, 5] + [7**j for j in range(2, 14)]:
        Q = ref.elligator_fe(f)
        for P in [ref.add(Q, t) for t in ref.TORSION4]:
            if P[0] == 0 or P[1] in (ref.p - 1,):
                continue
            s2 = (1 - P[1]) * ref.inv(1 + P[1]) % ref.p
            ok, s = ref.sqrt_ratio(s2, 1)
            if ok:
                for s in (s, -s % ref.p):
                    out.append({S: s, T: 2 * s * ref.inv(P[0] * ref.SQRT_AD_M1) % ref.p})
    return out + [{S: 0, T: 1}, {S: 0, T: ref.p - 1}]


def run_inv(B, S, T):
    R = fev.FRun(B, 3)
    a = R.obj("a", R.struct(S, T))
    f = R.obj("f", R.fe(fv("old")))
    st, ret = R.ex.call1(R.st, TN("JP", "elligator2Inverse"), [a, f])
    ok = not R.ex.panics and R.vals(st, a) == (S, T)
    return R, ret, R.recover(R.ex.load(st, f)), ok


def goal_sound(ctx, tag):
    B = Backend(ctx, tag)
    if TN("JP", "elligator2Inverse") not in B.p.funcs:
        return unknown("no such method")
    if bad_constants():
        return unknown("squares: %s" % bad_constants())
    S, T = fv("S"), fv("T")
    R, ret, f, ok = run_inv(B, S, T)
    fns = fnames(R.ex) + sorted(R.used)
    fl = fev.flag(ret)
    if not ok or set(fl) - {0, 1} or 1 not in fl:
        return unknown("shape", functions=fns)

    def leaf(c, terms, bools, path):
        f = terms[0]
        if c.zero(S_(sq(S), fc(cS))):
            return None           # a non-square would be a square
        s0 = c.zero(S)
        if bools[0] is not TRUE:
            return "the points over s = 0 have preimages" if s0 else None
        if not c.sign(f, False):
            return "negative preimage"
        m = Rel(f)
        if s0:
            for t, w in ((ONE, fc(SQRT_ID)), (fc(-1), ZERO)):
                if c.zero(S_(T, t)):
                    return None if c.zero(S_(f, w)) else "preimage over s = 0"
            return "t is not 1 or -1"
        if not c.nonzero(m.v):
            return "v may be 0"
        for case, neg in ((1, False), (2, True)):
            if c.sign(S, neg):
                if case == 2 and not c.nonzero(f):
                    return "f may be 0"
                return None if all(c.zero(e) for e in m.eqs(case, S, T)) else "does not map to the point (case %d)" % case
        return "the sign of s is not considered"
    sp = fev.Split([quartic(S, T)], samples=qsamples(S, T))
    fails = sp.run([f], leaf, [fl[1], ff.fz(S), ff.fz(S_(T, ONE)), ff.fsg(S)])
    if not fails:
        return proved(functions=fns, sub=sp.leaves)
    return dict(status="unknown", detail=fails[0], functions=fns, cases=jp_cases(B, tag, [(e.get(S, 0), e.get(T, 0)) for e in sp.cex]))


def goal_complete(ctx, tag, case):
    """the image of a non-negative g is inverted to g"""
    B = Backend(ctx, tag)
    if TN("JP", "elligator2Inverse") not in B.p.funcs:
        return unknown("no such method")
    if bad_constants():
        return unknown("squares: %s" % bad_constants())
    g, S, T = fv("g"), fv("S"), fv("T")
    m = Rel(g)
    R, ret, f, ok = run_inv(B, S, T)
    fns = fnames(R.ex) + sorted(R.used)
    fl = fev.flag(ret)
    if not ok or set(fl) - {0, 1} or 1 not in fl:
        return unknown("shape", functions=fns)
    samples = []
    for x in [2, 4, 6, 8, 10, 12] + [7**j * 2 for j in range(2, 30)]:
        r = ref.I * x * x % ref.p
        u = (r + 1) * ref.ONE_MINUS_D_SQ % ref.p
        v = (-1 - r * ref.d) * (r + ref.d) % ref.p
        sqr, s = ref.sqrt_ratio(u, v)
        c = ref.p - 1
        if not sqr:
            s, c = -ref.absf(s * x) % ref.p, r
        t = (c * (r - 1) * ref.D_MINUS_ONE_SQ - v) * ref.inv(v) % ref.p
        if sqr == (case == 1):
            samples.append({g: x % ref.p, S: s, T: t})
    samples = [e for e in samples if not e[g] & 1]

    def absurd(c):
        if c.zero(S_(sq(S), fc(cS))):
            return True
        return False

    def lemma(c, what, a, y):
        # the radicand is a non-square: i*a*g^2 is a square and g != 0
        aa = fmuls(A_(T, ONE), fc(KK))
        if what == "square":
            for w in (A_(aa, sq(S)), S_(aa, sq(S))):
                if c.zero(S_(fmuls(I_, a, g, g), sq(w))) and c.nonzero(w) and c.nonzero(g):
                    c.eqs.append(ONE)
                    return
        elif what == "zero":
            if absurd(c):
                c.eqs.append(ONE)

    def leaf(c, terms, bools, path):
        if absurd(c):
            return None
        if bools[0] is not TRUE:
            return "no preimage reported"
        if not c.sign(terms[0], False):
            return "negative"
        # both are non-negative: equal squares suffice
        return None if c.zero(S_(sq(terms[0]), sq(g))) else "another element"
    # g = 0 in case 1 would make (d^2-1)/d a square; in case 2 it means s = 0
    sp = fev.Split(m.eqs(case, S, T) + [quartic(S, T)], [S, m.v, g], [(g, False), (S, case == 2)], lemmas=lemma, samples=samples, timeout=30)
    z = ff.Ctx(m.eqs(case, S, T) + [g], [S, m.v])
    if not z.inconsistent() and not absurd(z):
        return unknown("g = 0", functions=fns)
    q = ff.Ctx(m.eqs(case, S, T), [S, m.v])
    if not q.zero(quartic(S, T)):
        return unknown("the image is not on the quartic", functions=fns)
    fails = sp.run([f], leaf, [fl[1]])
    if not fails:
        return proved(functions=fns, sub=sp.leaves)
    return dict(status="unknown", detail=fails[0], functions=fns, cases=[c for e in sp.cex for c in fe_cases(B, tag, e.get(g, 2))])


def goal_quartic(ctx, tag):
    """the four quartic points lie over the four members of the coset"""
    B = Backend(ctx, tag)
    n = TN("EP", "ToJacobiQuarticRistretto")
    if n not in B.p.funcs:
        return unknown("no such method")
    R = fev.FRun(B, 3)
    P = Even("p")
    a = R.obj("a", R.struct(*P.rep("EP")))
    q = R.obj("q", tuple(R.struct(fv("s%d" % j), fv("t%d" % j)) for j in range(4)))
    st, ret = R.ex.call1(R.st, n, [a, q])
    fns = fnames(R.ex) + sorted(R.used)
    if R.ex.panics or R.vals(st, a) != P.rep("EP"):
        return unknown("panic or operand changed", functions=fns)
    terms = []
    for jp in R.ex.load(st, q):
        terms += [R.recover(jp[0]), R.recover(jp[1])]
    cT = fc(2 * ref.I * ref.inv(ref.SQRT_AD_M1))

    def over(c, S, T, cx, cy):
        """(2S/(T q), (1-S^2)/(1+S^2)) = (cx, cy)"""
        return c.zero(S_(M_(cy, A_(ONE, sq(S))), S_(ONE, sq(S)))) and c.zero(S_(fmuls(cx, T, SQ), M_(fc(2), S)))

    def leaf(c, terms, bools, path):
        js = [(terms[2 * j], terms[2 * j + 1]) for j in range(4)]
        if c.zero(M_(P.x, P.y)):
            have = set()
            for S, T in js:
                for s in (0, 1, -1):
                    if c.zero(S_(S, fc(s))):
                        for t in ([ONE, fc(-1)] if s == 0 else [cT, N_(cT)]):
                            if c.zero(S_(T, t)):
                                have.add((s % ref.p, t))
                                have.add((-s % ref.p, N_(t)))
            if not all(any(c.zero(S_(S, fc(s))) and c.zero(S_(sq(T), t)) for s, t in ((0, ONE), (1, sq(cT)), (-1, sq(cT)))) for S, T in js):
                return "one of the points of the neutral element is not on the quartic"
            return None if len(have) == 6 else "quartic points of the neutral element"
        c = c.copy()
        c.nes.append(M_(P.x, P.y))
        c.refilter()
        if c.inconsistent():
            return None
        left = list(coset(P))
        for j, (S, T) in enumerate(js):
            if not c.zero(quartic(S, T)):
                return "point %d is not on the quartic" % j
            for k, (cx, cy) in enumerate(left):
                if over(c, S, T, cx, cy):
                    del left[k]
                    break
            else:
                return "point %d is not over the coset" % j
        return None
    sp = fev.Split(P.hyps(), [P.z], lemmas=lemmas(P), samples=envs(P, 6))
    fails = sp.run(terms, leaf)
    if not fails:
        return proved(functions=fns, sub=sp.leaves)
    return dict(status="unknown", detail=fails[0], functions=fns, cases=[c for Q, z in concretes(sp, P) for c in (point_case(B, tag, Q, z), quartic_case(B, tag, Q, z))])


def goal_jacobi(ctx, tag, fn):
    """SetJacobiQuartic: the Edwards point under (s, t).  Dual: (-s, -t), in place as well"""
    B = Backend(ctx, tag)
    n = TN("CP" if fn == "SetJacobiQuartic" else "JP", fn)
    if n not in B.p.funcs:
        return unknown("no such method")
    S, T = fv("S"), fv("T")
    fns, subs = [], 0
    for alias in ((False,) if fn == "SetJacobiQuartic" else (False, True)):
        R = fev.FRun(B, 3)
        a = R.obj("a", R.struct(S, T))
        o = a if alias else R.obj("o", R.struct(*[fv("old%d" % j) for j in range(4 if fn == "SetJacobiQuartic" else 2)]))
        st, ret = R.ex.call1(R.st, n, [o, a])
        fns = fnames(R.ex) + sorted(R.used)
        if R.ex.panics or ret != o or (not alias and R.vals(st, a) != (S, T)):
            return unknown("panic or operand changed", functions=fns)
        v = R.vals(st, o)
        if fn == "Dual":
            want = [A_(v[0], S), A_(v[1], T)]
            c = ff.Ctx([], [])
        else:
            s2 = sq(S)
            want = [S_(fmuls(v[0], T, SQ), fmuls(v[2], fc(2), S)), S_(M_(v[1], A_(ONE, s2)), M_(v[3], S_(ONE, s2)))]
            c = ff.Ctx([quartic(S, T)], [T, A_(ONE, s2)])
            if not (c.nonzero(v[2]) and c.nonzero(v[3])):
                return dict(status="unknown", detail="invalid point", functions=fns, cases=jacobi_cases(B, tag, qsamples(S, T), S, T))
        for w in want:
            subs += 1
            if not c.zero(w):
                return dict(status="unknown", detail="another point", functions=fns, cases=jacobi_cases(B, tag, qsamples(S, T), S, T))
    return proved(functions=fns, sub=subs)


def jacobi_cases(B, tag, envs, S, T):
    out = []
    for e in envs:
        s, t = e[S], e[T]
        if (1 + s * s) % ref.p == 0 or t == 0:
            continue
        v = [limbs_of(B, s), limbs_of(B, t)]
        P = (2 * s * ref.inv(t * ref.SQRT_AD_M1) % ref.p, (1 - s * s) * ref.inv(1 + s * s) % ref.p)
        out.append({"tags": [tag], "prog": {"vars": [["j", "JP", v], ["c", "CP"], ["e", "JP"], ["k", "JP", v]],
                                            "steps": [{"m": "CP.SetJacobiQuartic", "a": ["c", "j"]}, {"m": "JP.Dual", "a": ["e", "j"]}, {"m": "JP.Dual", "a": ["k", "k"]}], "out": ["j", "c", "e", "k"]},
                    "expect": {"j": ["raw", v], "c": ["cp", [str(x) for x in P]], "e": ["jp", [str(-s % ref.p), str(-t % ref.p)]], "k": ["jp", [str(-s % ref.p), str(-t % ref.p)]]},
                    "note": "quartic point (%d, %d)" % (s, t)})
    return out


def quartic_case(B, tag, P, z):
    v = ep(B, P, z)
    return {"tags": [tag], "prog": {"vars": [["p", "EP", v], ["q", "jp4"]], "steps": [{"m": "EP.ToJacobiQuarticRistretto", "a": ["p", "q"]}], "out": ["p", "q"]},
            "expect": {"p": ["raw", v], "q": ["jq", [str(x) for x in P]]}, "note": "quartic points of %s (scale %d)" % (P, z)}


def goal_fibre(ctx):
    """two quartic points over the same Edwards point with x != 0 are equal or dual"""
    S, T, A, C = fv("S"), fv("T"), fv("A"), fv("C")
    x, y = fv("x"), fv("y")
    h = []
    for s, t in ((S, T), (A, C)):
        h += [S_(M_(y, A_(ONE, sq(s))), S_(ONE, sq(s))), S_(fmuls(x, t, SQ), M_(fc(2), s))]
    c = ff.Ctx(h, [x])
    if not c.zero(M_(S_(S, A), A_(S, A))):
        return unknown("s")
    for sg in (1, -1):
        e = S_(S, A) if sg == 1 else A_(S, A)
        f = S_(T, C) if sg == 1 else A_(T, C)
        if not ff.Ctx(h + [e], [x]).zero(f):
            return unknown("t")
    return proved(sub=3)


def goal_glue(ctx, tag):
    """RistrettoElligator2Inverse collects the inverses of the four points and of their duals"""
    B = Backend(ctx, tag)
    n = TN("EP", "RistrettoElligator2Inverse")
    if n not in B.p.funcs:
        return unknown("no such method")
    P = Pt("p")
    R = fev.FRun(B, 3)
    a = R.obj("a", R.struct(*P.rep("EP")))
    fes = R.obj("f", tuple(R.fe(fv("old%d" % j)) for j in range(8)))
    st, mask = R.ex.call1(R.st, n, [a, fes])
    fns = fnames(R.ex) + sorted(R.used)
    if R.ex.panics or R.vals(st, a) != P.rep("EP"):
        return unknown("panic or operand changed", functions=fns)
    got = [R.recover(x) for x in R.ex.load(st, fes)]
    E = fev.FRun(B, 3)
    a = E.obj("a", E.struct(*P.rep("EP")))
    q = E.obj("q", tuple(E.struct(fv("s%d" % j), fv("t%d" % j)) for j in range(4)))
    E.st, _ = E.ex.call1(E.st, TN("EP", "ToJacobiQuarticRistretto"), [a, q])
    want = []
    for jp in E.ex.load(E.st, q):
        S, T = E.recover(jp[0]), E.recover(jp[1])
        for x, y in ((S, T), (N_(S), N_(T))):
            o = E.obj("o", E.struct(x, y))
            f = E.obj("of", E.fe(fv("of")))
            E.st, r = E.ex.call1(E.st, TN("JP", "elligator2Inverse"), [o, f])
            want.append((r, E.recover(E.ex.load(E.st, f))))
    left = list(range(8))
    for j in range(8):
        bit = tm.cmp("eq", tm.binop("and", tm.shift("shr", mask, tm.const(j, U64)), tm.const(1, mask.ty)), tm.const(1, mask.ty))
        for k in left:
            if want[k][1] is got[j]:
                b = tm.cmp("eq", want[k][0], tm.const(1, want[k][0].ty))
                g = tm.bor(tm.band(bit, b), tm.band(tm.bnot(bit), tm.bnot(b)))
                if solve.prove_bv(g, timeout=20)[0] == "proved":
                    left.remove(k)
                    break
        else:
            return unknown("slot %d" % j, functions=fns)
    return proved(functions=fns, sub=8)


def lizard_bytes(data):
    from symgo import stdlib
    h = list(stdlib.hashbytes("sha256", 32, tuple(data)))
    h[8:24] = list(data)
    h[0] = tm.binop("and", h[0], tm.const(254, U8))
    h[31] = tm.binop("and", h[31], tm.const(63, U8))
    return h


def goal_setlizard(ctx, tag):
    B = Backend(ctx, tag)
    if PT("SetLizard") not in B.p.funcs:
        return unknown("no such method")
    R = fev.FRun(B, 3)
    data = bytesvars("d", 16)
    a = R.obj("a", R.struct(*[fv("old%d" % j) for j in range(4)]))
    d = R.obj("d", data)
    # the bytes given to SetBytes may be written differently: compare them by a query
    want = lizard_bytes(data)
    seen = []
    inner = R.ex.hooks[FE("SetBytes")]

    def setbytes(ex, st, args, ins):
        bs = ex.load(st, args[1])
        s, env = solve.prove_bv(tm.band(*[tm.cmp("eq", x, y) for x, y in zip(bs, want)]))
        seen.append((s, env))
        if s == "proved":
            R.put(st, args[0], R.frombytes(want))
            return args[0]
        return inner(ex, st, args, ins)
    R.ex.hooks[FE("SetBytes")] = setbytes
    st, ret = R.ex.call1(R.st, PT("SetLizard"), [a, d])
    fns = fnames(R.ex) + sorted(R.used)
    if R.ex.panics or R.ex.load(st, d) != data or ret != a:
        return unknown("panic or operand changed", functions=fns)
    val = R.vals(st, a)
    E = fev.FRun(B, 3)
    p = E.obj("p", E.struct(*[fv("x%d" % j) for j in range(4)]))
    E.st, _ = E.ex.call1(E.st, PT("SetElligator"), [p, E.obj("h", tuple(want))])
    if val == E.vals(E.st, p):
        return proved("identical to SetElligator of the buffer", functions=fns)
    cs = [lizard_case(B, tag, bytes(env.get(x, 0) for x in data)) for s, env in seen if env]
    return dict(status="unknown", detail="differs from the map of the buffer", functions=fns, cases=cs)


def goal_lizard(ctx, tag, fn):
    """the data of the only preimage with a correct checksum"""
    B = Backend(ctx, tag)
    if PT(fn) not in B.p.funcs:
        return unknown("no such method")
    R = fev.FRun(B, 3)
    P = Pt("p")
    mask = tm.var("mask", U8)
    fs = [fv("f%d" % j) for j in range(8)]
    calls = []

    def inv(ex, st, args, ins):
        calls.append(args[0])
        ex.store(st, args[1], tuple(R.fe(f) for f in fs))
        return mask
    R.ex.hooks[TN("EP", "RistrettoElligator2Inverse")] = inv
    a = R.obj("a", R.struct(*P.rep("EP")))
    old = bytesvars("o", 16)
    out = R.obj("o", old)
    R.ex.merge = True
    outs = R.ex.call(R.st, PT(fn), [a, out] if fn == "LizardInto" else [a])
    fns = fnames(R.ex) + sorted(R.used) + [TN("EP", "RistrettoElligator2Inverse")]
    if R.ex.panics or len(calls) != 1 or calls[0] != a:
        return unknown("panic paths or calls of the inverse: %d" % len(calls), functions=fns)
    bs = [[fev.fbyte(f, i) for i in range(32)] for f in fs]
    oks = []
    for j in range(8):
        h = lizard_bytes(bs[j][8:24])
        bit = tm.cmp("eq", tm.binop("and", tm.shift("shr", mask, tm.const(j, U64)), tm.const(1, U8)), tm.const(1, U8))
        oks.append(tm.band(bit, *[tm.cmp("eq", x, y) for x, y in zip(h, bs[j])]))
    one = FALSE
    for j in range(8):
        one = tm.bor(one, tm.band(oks[j], *[tm.bnot(o) for k, o in enumerate(oks) if k != j]))
    n = 0
    for st, ret in outs:
        if R.vals(st, a) != P.rep("EP"):
            return unknown("the point changes", functions=fns)
        for guard, r in alternatives(st, ret):
            good = r is None if fn == "LizardInto" else r is not None
            g = st.g() if hasattr(st, "g") else TRUE
            g = tm.band(g, guard)
            goals = [tm.bor(tm.bnot(g), one if good else tm.bnot(one))]
            if good:
                res = R.ex.load(st, out) if fn == "LizardInto" else R.ex.sl_list(st, r)
                if len(res) != 16:
                    return unknown("length", functions=fns)
                for j in range(8):
                    goals.append(tm.bor(tm.bnot(tm.band(g, one, oks[j])), tm.band(*[tm.cmp("eq", x, y) for x, y in zip(res, bs[j][8:24])])))
            for o in goals:
                s, env = solve.prove_bv(o, timeout=60)
                n += 1
                if s != "proved":
                    return dict(status="unknown", detail="%s %s" % (fn, s), functions=fns)
    obl = [o for o in R.ex.obligations]
    for g, cond, what in obl:
        if solve.prove_bv(tm.bor(tm.bnot(g), cond), timeout=30)[0] != "proved":
            return unknown("obligation " + what, functions=fns)
    return proved(functions=fns, sub=n)


def alternatives(st, v):
    if isinstance(v, Mux):
        out = []
        for g, x in alternatives(st, v.a):
            out.append((tm.band(v.c, g), x))
        for g, x in alternatives(st, v.b):
            out.append((tm.band(tm.bnot(v.c), g), x))
        return out
    return [(TRUE, v)]


def goals(ctx):
    out = [("lemma: the fibre of an Edwards point", goal_fibre, {})]
    for tag in ctx.progs:
        lab = "default" if not tag else tag
        out.append(("JP.elligator2Inverse is sound[%s]" % lab, goal_sound, dict(tag=tag)))
        for case in (1, 2):
            out.append(("JP.elligator2Inverse is complete (%s)[%s]" % (("square", "non-square")[case - 1], lab), goal_complete, dict(tag=tag, case=case)))
        out.append(("EP.ToJacobiQuarticRistretto[%s]" % lab, goal_quartic, dict(tag=tag)))
        for fn in ("SetJacobiQuartic", "Dual"):
            out.append(("%s[%s]" % (fn, lab), goal_jacobi, dict(tag=tag, fn=fn)))
        out.append(("EP.RistrettoElligator2Inverse[%s]" % lab, goal_glue, dict(tag=tag)))
        out.append(("P.SetLizard[%s]" % lab, goal_setlizard, dict(tag=tag)))
        for fn in ("LizardInto", "Lizard"):
            out.append(("P.%s[%s]" % (fn, lab), goal_lizard, dict(tag=tag, fn=fn)))
    return out


# ---- concrete ---------------------------------------------------------------------

def jp_cases(B, tag, sts):
    out = []
    for s, t in sts:
        if (t * t - (s**4 - 2 * ref.inv(KK) * s * s + 1)) % ref.p or t == 0 or (1 + s * s) % ref.p == 0:
            continue
        out.append(point_case(B, tag, (2 * s * ref.inv(t * ref.SQRT_AD_M1) % ref.p, (1 - s * s) * ref.inv(1 + s * s) % ref.p), 1))
    return out


def point_case(B, tag, P, z, have=(), finding=None):
    v = ep(B, P, z)
    neutral = P in ref.TORSION4
    if not neutral:
        have = ref.preimages(P)
    c = {"tags": [tag], "prog": {"vars": [["p", "EP", v], ["f", "fe8"]], "steps": [{"m": "EP.RistrettoElligator2Inverse", "a": ["p", "f"], "r": ["m"]}], "out": ["m", "f", "p"]},
         "expect": {"f": ["eset", {"mask": "m", "point": [str(x) for x in P], "have": [str(x) for x in have], "distinct": not neutral}], "p": ["raw", v]},
         "note": "inverse images of %s (scale %d)" % (P, z)}
    if finding:
        c["finding"] = finding
    return c


def fe_cases(B, tag, g):
    g = ref.absf(g)
    P = ref.elligator_fe(g)
    if g == KNOWN_MISSING:
        return []
    return [point_case(B, tag, ref.add(P, t), z, [g]) for t, z in zip(ref.TORSION4, (1, 2, ref.p - 1, 12345))]


def lizard_case(B, tag, data, t=0, z=1):
    """SetLizard, then Lizard and LizardInto on a possibly different representative"""
    h = data.hex()
    f = int.from_bytes(ref.lizard_buf(data), "little")
    P = ref.elligator_fe(f)
    Q = ref.add(P, ref.TORSION4[t])
    v = ep(B, Q, z)
    vs = [["p", "P", junk(B)], ["d", "b16", h], ["q", "P", v], ["o", "b16", "77" * 16]]
    steps = [{"m": "P.SetLizard", "a": ["p", "d"]}, {"m": "P.Lizard", "a": ["p"], "r": ["l0"]}, {"m": "P.Lizard", "a": ["q"], "r": ["l1"]}, {"m": "P.LizardInto", "a": ["q", "o"], "r": ["e"]}]
    exp = {"p": pt(P), "d": ["hex", h], "q": ["raw", v], "l0": ["hex", h], "l1": ["hex", h], "o": ["hex", h], "e": ["iserr", False]}
    return {"tags": [tag], "prog": {"vars": vs, "steps": steps, "out": list(exp)}, "expect": exp, "note": "Lizard of %s" % h}


def nolizard_case(B, tag, P, z):
    v = ep(B, P, z)
    steps = [{"m": "P.Lizard", "a": ["q"], "r": ["l1"]}, {"m": "P.LizardInto", "a": ["q", "o"], "r": ["e"]}]
    exp = {"q": ["raw", v], "l1": ["raw", None], "e": ["iserr", True]}
    return {"tags": [tag], "prog": {"vars": [["q", "P", v], ["o", "b16", "77" * 16]], "steps": steps, "out": list(exp)}, "expect": exp, "note": "no Lizard data in %s" % (P,)}


def near_lizard(r):
    """elements that fail the checksum in one place"""
    out = []
    for _ in range(12):
        b = bytearray(ref.lizard_buf(bytes(r.randrange(256) for _ in range(16))))
        j = r.choice([k for k in range(32) if not 8 <= k < 24])
        m = 1 << r.randrange(8)
        if j == 0 and m == 1:
            continue
        b[j] ^= m
        v = int.from_bytes(b, "little")
        if v < ref.p:
            out.append(v)
    for j, m in ((31, 64), (0, 2), (7, 128), (24, 1), (31, 32), (7, 1), (24, 128), (1, 1)):
        b = bytearray(ref.lizard_buf(b"near lizard %04d" % j))
        b[j] ^= m
        v = int.from_bytes(b, "little")
        if v < ref.p:
            out.append(v)
    return out


def pool(ctx):
    out = []
    for tag in ctx.progs:
        B = Backend(ctx, tag)
        r = rng(ctx, "c14" + tag)
        zs = scales(ctx)
        gs = [0, SQRT_ID, 2, 4, 6, 8, ref.p - 1, ref.p - 3, 2**254, 2**200] + [r.randrange(ref.p) for _ in range(60 if not ctx.thorough else 600)]
        for v in getattr(ctx, "hints", []):
            gs += [v % ref.p, -v % ref.p]
        for P, z in hint_reps(ctx, True, 400):
            if P not in ref.TORSION4:
                out.append(point_case(B, tag, P, z))
                out.append(quartic_case(B, tag, P, z))
        for g in gs:
            out += fe_cases(B, tag, g)
        out.append(point_case(B, tag, (0, 1), 1, [KNOWN_MISSING], finding="neutral-missing-preimage"))
        have = [x for x in ref.neutral_preimages() if x != KNOWN_MISSING]
        for t in ref.TORSION4:
            for z in (1, 2, ref.p - 1, zs[-1], 12345):
                out.append(point_case(B, tag, t, z, have))
        for P in sample_points(ctx, 12, even=True):
            for z in (1, r.choice(zs)):
                out.append(point_case(B, tag, P, z))
                if P not in ref.TORSION4:
                    out.append(nolizard_case(B, tag, P, z))
        for P in special_points(True)[::1 if ctx.thorough else 3]:
            out.append(point_case(B, tag, P, 1))
            out.append(quartic_case(B, tag, P, 1))
        out += jacobi_cases(B, tag, qsamples("S", "T"), "S", "T")
        for P in sample_points(ctx, 12, even=True):
            out.append(quartic_case(B, tag, P, r.choice(zs)))
        for t in ref.TORSION4:
            for z in (1, 5, ref.p - 1):
                out.append(quartic_case(B, tag, t, z))
        for t in ref.TORSION4:
            out.append(nolizard_case(B, tag, t, 7))
        for v in near_lizard(r):
            out.append(nolizard_case(B, tag, ref.elligator_fe(v), 5))
        ds = [bytes(16), b"\xff" * 16, bytes(range(16))] + [bytes([1 << (j % 8) if k == j // 8 else 0 for k in range(16)]) for j in range(0, 128, 5)]
        ds += [bytes(r.randrange(256) for _ in range(16)) for _ in range(60 if not ctx.thorough else 1000)]
        ds += [ref.b32(v)[:16] for v in getattr(ctx, "hints", [])]
        for j, d in enumerate(ds):
            out.append(lizard_case(B, tag, d, j % 4, zs[j % len(zs)]))
    return out
