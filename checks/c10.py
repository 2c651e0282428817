"""C10: the encoding."""
from .pts import *

BOUNDS = "all even points of the curve (2E, which is where every group element has its representatives) in every projective representation"
EXPLAIN = ("RistrettoInto is executed over abstract field values; for every case of the sign decisions the solver shows that the bytes are those of the non-negative s for which "
           "RFC 9496 decoding yields the coset representative with non-negative x and non-negative xy and non-zero y (0 for the neutral element).")
ASSUME = ["the contracts of the field operations decided in C01, C02 and C03", "-(d+1) is a square (computed), so that 1-y^2 is a square for every even point (lemma goal)"]
I_ = fc(ref.I)


class Even(Pt):
    """an even point: 1 - y^2 is a square"""

    def hyps(self):
        return Pt.hyps(self) + [S_(A_(sq(self.e), sq(self.y)), ONE)]

    @property
    def e(self):
        return fv(self.name + ".e")


def even_samples(n=3):
    out = []
    for k in range(n):
        P = ref.add(ref.mul(1234567 + 99991 * k, ref.BASE), ref.TORSION4[k % 4])
        e = ref.sqrt_ratio(1 - P[1] ** 2, 1)
        assert e[0]
        out.append((P, e[1], 3 + 7 * k))
    return out


def square_witness(c, P, a, samples):
    """a term u with u^2 = a, a monomial in x, y, z and e, confirmed by the solver"""
    env = []
    for (x, y), e, z in samples:
        env.append({P.x: x, P.y: y, P.z: z, P.e: e})
    try:
        vals = [ff.feval([a], m)[0] for m in env]
    except Exception:
        return None
    ee = range(0, 7)
    for i, j, k, l in itertools.product(ee, ee, range(0, 13), range(0, 4)):
        c0 = None
        ok = True
        for m, v in zip(env, vals):
            u = pow(m[P.x], i, ref.p) * pow(m[P.y], j, ref.p) * pow(m[P.z], k, ref.p) * pow(m[P.e], l, ref.p) % ref.p
            q = v * ref.inv(u * u % ref.p) % ref.p
            if c0 is None:
                c0 = q
            elif q != c0:
                ok = False
                break
        if ok and c0:
            s = ref.sqrt_ratio(c0, 1)
            if s[0]:
                t = fmuls(*([fc(s[1])] + [P.x] * i + [P.y] * j + [P.z] * k + [P.e] * l))
                if c.zero(S_(sq(t), a)):
                    return t
    return None


def envs(P, n=24):
    """concrete assignments for the symbolic point: every coset member, signs and scales"""
    out = []
    pts = [ref.add(ref.mul(k, ref.BASE), t) for k in [0, 1, 2, ref.l - 1] + [7919 * j + 3 for j in range(1, n)] for t in ref.TORSION4]
    for j, Q in enumerate(pts):
        e = ref.sqrt_ratio(1 - Q[1] ** 2, 1)[1]
        z = (1, ref.p - 1, 5, 2**200 + 77)[j // 4 % 4]
        out.append({P.x: Q[0], P.y: Q[1], P.z: z, P.e: e, P.w: z})
    return out


def lemmas(P):
    smp = even_samples()

    def f(c, what, a, r):
        if what not in ("root", "nonsq"):
            return
        # the radicand is a square: this case does not exist
        if square_witness(c, P, a, smp) is not None:
            c.eqs.append(ONE)
    return f


def goal_lemma(ctx):
    """1 - y(2Q)^2 = -(d+1) * (2 x y / (1 - d x^2 y^2))^2"""
    if ff.fsq(N_(A_(D, ONE))) is not TRUE:
        return unknown("-(d+1) is not a square")
    Q = Pt("q")
    (xn, xd), (yn, yd) = law(Q, Q)
    c = ff.Ctx(Q.hyps())
    ok = c.zero(S_(S_(sq(yd), sq(yn)), M_(N_(A_(D, ONE)), sq(fmuls(fc(2), Q.x, Q.y)))))
    return proved() if ok else unknown("lemma")


def goal_unique(ctx):
    """two non-negative s, s' that decode to equivalent points are equal"""
    s, t = fv("s"), fv("t")
    P = Pt("p")
    n = 0
    for j, (cx, cy) in enumerate(coset(P)):
        # s decodes to (x, y), t to the coset member j
        c = ff.Ctx(P.hyps() + decodes(s, P.x, P.y) + decodes(t, cx, cy), [P.y, cy], [(P.x, False), (cx, False), (M_(P.x, P.y), False), (M_(cx, cy), False), (s, False), (t, False)])
        if j == 0:
            # s^2 = t^2 and both are non-negative
            if not c.zero(M_(S_(s, t), A_(s, t))):
                return unknown("squares differ")
            n += 1
        else:
            # signs: x and -x (or xy and -xy) both non-negative: 0, which is impossible
            k = P.x if j == 1 else M_(P.x, P.y)
            o = cx if j == 1 else M_(cx, cy)
            if not c.zero(A_(k, o)):
                return unknown("coset %d" % j)
            c = ff.Ctx(c.eqs + [k], c.nes)
            if not c.inconsistent():
                return unknown("coset %d is possible" % j)
            n += 2
    return proved(sub=n)


def coset(P):
    return [(P.x, P.y), (N_(P.x), N_(P.y)), (M_(I_, P.y), M_(I_, P.x)), (N_(M_(I_, P.y)), N_(M_(I_, P.x)))]


def decodes(s, x, y):
    """equations: y = (1-s^2)/(1+s^2), x^2 v = 4 s^2 with v = -d(1-s^2)^2 - (1+s^2)^2"""
    ss = sq(s)
    v = N_(A_(M_(D, sq(S_(ONE, ss))), sq(A_(ONE, ss))))
    return [S_(M_(y, A_(ONE, ss)), S_(ONE, ss)), S_(M_(sq(x), v), M_(fc(4), ss))]


def leaf_encode(P):
    def leaf(c, terms, bools, path):
        s = terms[0]
        xy = M_(P.x, P.y)
        if c.zero(xy):
            return None if c.zero(s) else "the neutral element is not encoded as 0"
        c = c.copy()
        c.nes.append(xy)
        if c.inconsistent():
            return None
        why = "no representative"
        if not c.sign(s, False):
            return "s may be negative"
        for cx, cy in coset(P):
            if not c.sign(M_(cx, cy), False) or not c.sign(cx, False):
                continue
            if all(c.zero(e) for e in decodes(s, cx, cy)):
                return None
            why = "s does not decode to the representative"
        return why
    return leaf


def goal_enc(ctx, tag, kind, m):
    B = Backend(ctx, tag)
    n = TN(kind, m)
    if n not in B.p.funcs:
        return unknown("no such method")
    R = fev.FRun(B, 3)
    P = Even("p")
    a = R.obj("a", R.struct(*P.rep(kind)))
    st = R.st
    if m.endswith("Into"):
        b = R.obj("b", tuple(tm.var("old%d" % j, U8) for j in range(32)))
        st, ret = R.ex.call1(st, n, [a, b])
        if ret != a:
            return unknown("result pointer")
        bs = R.ex.load(st, b)
    else:
        st, ret = R.ex.call1(st, n, [a])
        bs = slice_bytes(R, st, ret)
    fns = fnames(R.ex) + sorted(R.used)
    if R.ex.panics or R.vals(st, a) != P.rep(kind) or len(bs) != 32:
        return unknown("panic or operand changed", functions=fns)
    s = R.frombytes(bs)
    if s.op == "fb":
        return unknown("the bytes are not those of a field element", functions=fns)
    sp = fev.Split(P.hyps(), [P.z], lemmas=lemmas(P), samples=envs(P))
    fails = sp.run([s], leaf_encode(P))
    if not fails:
        return proved(functions=fns, sub=sp.leaves)
    return dict(status="unknown", detail=fails[0], functions=fns, cases=[case(B, tag, Q, z) for Q, z in concretes(sp, P)])


def concretes(sp, P):
    out = []
    for e in sp.cex:
        Q = (e.get(P.x, 0), e.get(P.y, 0))
        z = e.get(P.z, 1) or 1
        if ref.on_curve(Q) and ref.is_sq(1 - Q[1] ** 2):
            out.append((Q, z))
    return out


def slice_bytes(R, st, s):
    return R.ex.load(st, Ptr(s.obj, s.path))[s.off:s.off + s.len]


def goals(ctx):
    out = [("lemma: 1-y^2 is a square on even points", goal_lemma, {}), ("lemma: the encoding is unique", goal_unique, {})]
    for tag in ctx.progs:
        lab = "default" if not tag else tag
        for k, m in (("EP", "RistrettoInto"), ("EP", "Ristretto"), ("P", "BytesInto"), ("P", "Bytes")):
            out.append(("%s.%s[%s]" % (k, m, lab), goal_enc, dict(tag=tag, kind=k, m=m)))
    return out


def case(B, tag, P, z, alt=False):
    h = ref.encode(P).hex()
    v = ep(B, P, z, alt)
    vs = [["e", "EP", v], ["p", "P", v], ["b", "b32", "aa" * 32], ["c", "b32", "55" * 32], ["q", "P", ep(B, (5, 7), 1)]]
    steps = [{"m": "EP.RistrettoInto", "a": ["e", "b"]}, {"m": "EP.Ristretto", "a": ["e"], "r": ["r0"]}, {"m": "P.BytesInto", "a": ["p", "c"]},
             {"m": "P.Bytes", "a": ["p"], "r": ["r1"]}, {"m": "P.SetBytes", "a": ["q", "c"], "r": ["ok"]}, {"m": "P.Equals", "a": ["q", "p"], "r": ["eq"]}]
    exp = {"b": ["hex", h], "c": ["hex", h], "r0": ["hex", h], "r1": ["hex", h], "ok": ["bool", True], "eq": ["bool", True], "e": ["raw", v], "p": ["raw", v]}
    return {"tags": [tag], "prog": {"vars": vs, "steps": steps, "out": list(exp)}, "expect": exp, "note": "encoding of %s (scale %d)" % (P, z)}


def pool(ctx):
    out = []
    for tag in ctx.progs:
        B = Backend(ctx, tag)
        r = rng(ctx, "c10" + tag)
        zs = scales(ctx)
        for P, z in hint_reps(ctx, True):
            out.append(case(B, tag, P, z))
        for P in special_points(True):
            for z in (1, r.choice(zs)):
                out.append(case(B, tag, P, z))
            out.append(case(B, tag, P, 1, True))
        for P in sample_points(ctx, 40 if not ctx.thorough else 400, even=True):
            for t in ref.TORSION4:
                Q = ref.add(P, t)
                for z in (1, r.choice(zs)):
                    out.append(case(B, tag, Q, z))
    return out
