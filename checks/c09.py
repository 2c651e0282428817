"""C09: equality of group elements."""
from .pts import *

BOUNDS = "all pairs of curve points in every projective representation"
EXPLAIN = "EqualsI is executed over abstract field values; the solver shows that the answer is 1 exactly when x(P-Q) = 0 or y(P-Q) = 0, which is P-Q having order dividing four."
ASSUME = ["the contracts of the field operations decided in C01 and C02", "Edwards addition law; denominators do not vanish (lemma of C08)"]


def goal_lemma(ctx):
    """2P has order at most 2 iff x = 0 or y = 0; the points with x = 0 or y = 0 are the four of E[4]"""
    P = Pt("p")
    c = ff.Ctx(P.hyps() + complete(P, P))
    (xn, xd), (yn, yd) = law(P, P)
    # x(2P) = 0 <=> 2xy = 0
    a = ff.Ctx(c.eqs + [xn])
    b = ff.Ctx(c.eqs + [M_(P.x, P.y)])
    ok = a.zero(M_(P.x, P.y)) and b.zero(xn)
    z = ff.Ctx(c.eqs + [P.x])
    ok = ok and z.zero(S_(sq(P.y), ONE))
    z = ff.Ctx(c.eqs + [P.y])
    ok = ok and z.zero(A_(sq(P.x), ONE))
    return proved(sub=4) if ok else unknown("lemma")


def goal_eq(ctx, tag, kind, m, same):
    B = Backend(ctx, tag)
    n = TN(kind, m)
    if n not in B.p.funcs:
        return unknown("no such method")
    R = fev.FRun(B, 3)
    P, Q = Pt("p"), Pt("q")
    if same:
        Q = P
    a = R.obj("a", R.struct(*P.rep(kind)))
    b = a if same else R.obj("b", R.struct(*Q.rep(kind)))
    st, ret = R.ex.call1(R.st, n, [a, b])
    fns = fnames(R.ex) + sorted(R.used)
    if R.ex.panics or R.vals(st, a) != P.rep(kind) or R.vals(st, b) != Q.rep(kind):
        return unknown("panic or operand changed", functions=fns)
    if ret.ty == BOOL:
        f = {1: fev.boolnf(ret)}
        f[0] = tm.bnot(f[1])
    else:
        f = fev.flag(ret)
    if set(f) - {0, 1} or 1 not in f:
        return unknown("values %s" % list(f), functions=fns)
    (xn, xd), (yn, yd) = law(P, Q, -1)

    def leaf(c, terms, bools, path):
        fl = bools[0]
        if fl is TRUE:
            return None if c.zero(M_(xn, yn)) else "equal although the difference has larger order"
        return None if c.nonzero(xn) and c.nonzero(yn) else "different although the difference is in E[4]"
    eqs = P.hyps() + Q.hyps() + complete(P, Q)
    fails = fev.Split(eqs, P.nes() + Q.nes()).run([], leaf, [f[1]])
    return proved(functions=fns, sub=2) if not fails else dict(status="unknown", detail=fails[0], functions=fns)


def goals(ctx):
    out = [("lemma: E[4]", goal_lemma, {})]
    for tag in ctx.progs:
        lab = "default" if not tag else tag
        for k, m in (("EP", "RistrettoEqualsI"), ("P", "EqualsI"), ("P", "Equals")):
            for same in (False, True):
                out.append(("%s.%s%s[%s]" % (k, m, " with itself" if same else "", lab), goal_eq, dict(tag=tag, kind=k, m=m, same=same)))
    return out


def case(B, tag, P, Q, z, w, alt=False):
    eq = ref.sub(P, Q) in ref.TORSION4
    steps = [{"m": "EP.RistrettoEqualsI", "a": ["e", "f"], "r": ["r0"]}, {"m": "P.EqualsI", "a": ["p", "q"], "r": ["r1"]}, {"m": "P.Equals", "a": ["p", "q"], "r": ["r2"]},
             {"m": "P.EqualsI", "a": ["q", "p"], "r": ["r3"]}, {"m": "P.Equals", "a": ["q", "p"], "r": ["r4"]}, {"m": "P.Equals", "a": ["p", "p"], "r": ["r5"]}]
    exp = {"r0": ["int", int(eq)], "r1": ["int", int(eq)], "r2": ["bool", eq], "r3": ["int", int(eq)], "r4": ["bool", eq], "r5": ["bool", True]}
    vs = [["e", "EP", ep(B, P, z, alt)], ["f", "EP", ep(B, Q, w)], ["p", "P", ep(B, P, z, alt)], ["q", "P", ep(B, Q, w)]]
    for v in vs:
        exp[v[0]] = ["raw", v[2]]
    return {"tags": [tag], "prog": {"vars": vs, "steps": steps, "out": ["r%d" % i for i in range(6)] + ["e", "f", "p", "q"]}, "expect": exp,
            "note": "Equals(%s, %s) scales %d, %d" % (P, Q, z, w)}


def pool(ctx):
    out = []
    t8 = torsion8()
    for tag in ctx.progs:
        B = Backend(ctx, tag)
        r = rng(ctx, "c09" + tag)
        pts = sample_points(ctx, 8 if not ctx.thorough else 60)
        zs = scales(ctx)
        for P in special_points() + torsion8():
            for t in t8[:4] + [t8[-1]]:
                Q = ref.add(P, t)
                out.append(case(B, tag, P, Q, 1, r.choice(zs), True))
                out.append(case(B, tag, P, Q, 1, 1))
        for P, z in hint_reps(ctx, most=500):
            for Q, w in ((P, 1), (ref.add(P, ref.TORSION4[2]), z), (r.choice(pts), r.choice(zs))):
                out += [case(B, tag, P, Q, z, w), case(B, tag, Q, P, w, z)]
        for P in pts:
            qs = [ref.add(P, t) for t in t8] + [ref.negp(P), (P[0], -P[1] % ref.p), (P[1] * ref.I % ref.p, P[0] * ref.I % ref.p), ref.add(P, P)]
            qs += [r.choice(pts) for _ in range(4)] + ref.TORSION4
            for Q in qs:
                if ref.on_curve(Q):
                    out.append(case(B, tag, P, Q, r.choice(zs), r.choice(zs)))
    return out
