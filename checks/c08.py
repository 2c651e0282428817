"""C08: the group law."""
from .pts import *

BOUNDS = "all points of the curve over GF(2^255-19) in every projective representation; operands equal, opposite, neutral or of small order included; flags 0 and 1"
EXPLAIN = ("The point operations are executed over abstract field values (contracts of C01-C03); the solver (finite fields, polynomial ideals) shows that the result "
           "coordinates are those of the Edwards addition law and that no denominator vanishes.")
ASSUME = ["the contracts of the field operations decided in C01, C02 and C03", "d is not a square (computed), so that -x^2+y^2=1+dx^2y^2 has no points where the law degenerates (shown by the solver as the lemma goal)",
          "the Edwards addition law is the group law of the curve"]

# known finding base-representative: SetBase yields this Ristretto-equivalent of the documented (x, 4/5)
KNOWN_BASE = (7413488746097234319268533557746747958297143720389000677696299943083562100178, 9771384041963202563870679428059935816164187996444183106833894008023910952347)

# method -> (receiver kind, operand kinds, result)
OPS = {}
for k in ("EP", "P"):
    OPS.update({(k, "Add"): ((k, k), "add"), (k, "Sub"): ((k, k), "sub"), (k, "Double"): ((k,), "dbl"), (k, "Neg"): ((k,), "neg"), (k, "Set"): ((k,), "id"),
                (k, "SetZero"): ((), (0, 1)), (k, "SetBase"): ((), ref.BASE)})
OPS.update({("EP", "SetTorsion1"): ((), (0, ref.p - 1)), ("EP", "SetTorsion2"): ((), (ref.I, 0)), ("EP", "SetTorsion3"): ((), (ref.p - ref.I, 0)),
            ("EP", "SetCompleted"): (("CP",), "id"), ("PP", "SetExtended"): (("EP",), "id"), ("PP", "SetCompleted"): (("CP",), "id"), ("PP", "SetZero"): ((), (0, 1)),
            ("CP", "AddExtended"): (("EP", "EP"), "add"), ("CP", "SubExtended"): (("EP", "EP"), "sub"), ("CP", "DoubleProjective"): (("PP",), "dbl"),
            ("CP", "DoubleExtended"): (("EP",), "dbl"), ("CP", "AddExtendedNiels"): (("EP", "NP"), "add"), ("CP", "SubExtendedNiels"): (("EP", "NP"), "sub"),
            ("NP", "SetZero"): ((), (0, 1)), ("NP", "Set"): (("NP",), "id"), ("NP", "Neg"): (("NP",), "neg"), ("NP", "SetExtended"): (("EP",), "id")})
COND = [("EP", "ConditionalSet"), ("P", "ConditionalSet"), ("NP", "ConditionalSet")]


def expected(op, ps):
    if op == "add":
        return law(ps[0], ps[1])
    if op == "sub":
        return law(ps[0], ps[1], -1)
    if op == "dbl":
        return law(ps[0], ps[0])
    if op == "neg":
        return (N_(ps[0].x), ONE), (ps[0].y, ONE)
    if op == "id":
        return (ps[0].x, ONE), (ps[0].y, ONE)
    return (fc(op[0]), ONE), (fc(op[1]), ONE)


def goal_lemma(ctx):
    """1 +- d x1 x2 y1 y2 != 0 on the curve, given that d is not a square"""
    if ff.fsq(D) is not FALSE:
        return unknown("d is a square")
    P, Q = Pt("p"), Pt("q")
    i = fc(ref.I)
    k = fmuls(D, P.x, P.y, Q.x, Q.y)
    for eps in (1, -1):
        c = ff.Ctx(P.hyps() + Q.hyps() + [S_(k, fc(eps))])
        e = fc(eps)
        for s in (ONE, fc(-1)):
            # (i x1 + s eps y1)^2 = d (x1 y1 (i x2 + s y2))^2; non-square d: both sides are 0
            a = A_(M_(i, P.x), fmuls(s, e, P.y))
            b = fmuls(P.x, P.y, A_(M_(i, Q.x), M_(s, Q.y)))
            if not c.zero(S_(sq(a), M_(D, sq(b)))):
                # the companion with the opposite sign
                b = fmuls(P.x, P.y, S_(M_(i, Q.x), M_(s, Q.y)))
                if not c.zero(S_(sq(a), M_(D, sq(b)))):
                    return unknown("lemma step, eps %d" % eps)
            c = ff.Ctx(c.eqs + [a, b])
        if not c.inconsistent():
            return unknown("lemma, eps %d" % eps)
    return proved(sub=6)


def goal_closed(ctx):
    """the law stays on the curve"""
    P, Q = Pt("p"), Pt("q")
    (xn, xd), (yn, yd) = law(P, Q)
    X2, Y2, XD, YD = sq(xn), sq(yn), sq(xd), sq(yd)
    c = ff.Ctx(P.hyps() + Q.hyps())
    # (yn/yd)^2 - (xn/xd)^2 = 1 + d (xn yn / (xd yd))^2
    e = S_(S_(M_(Y2, XD), M_(X2, YD)), A_(M_(XD, YD), fmuls(D, X2, Y2)))
    return proved() if c.zero(e) else unknown("closure")


def goal_op(ctx, tag, kind, m, pat=None):
    B = Backend(ctx, tag)
    n = TN(kind, m)
    if n not in B.p.funcs:
        return unknown("no such method")
    kinds, op = OPS[(kind, m)]
    R = fev.FRun(B, 3)
    ex, st = R.ex, R.st
    ps = [Pt("pq"[j]) for j in range(len(kinds))]
    recv = R.obj("r", R.struct(*[fv("old%d" % j) for j in range(3 if kind in ("PP", "NP") else 4)]))
    args = [R.obj("a%d" % j, R.struct(*p.rep(k))) for j, (p, k) in enumerate(zip(ps, kinds))]
    eqs, nes = [], []
    for p in ps:
        eqs += p.hyps()
        nes += p.nes()
    if op in ("add", "sub"):
        eqs += complete(ps[0], ps[1])
    if op == "dbl":
        eqs += complete(ps[0], ps[0])
    st, ret = ex.call1(st, n, [recv] + args)
    fns = fnames(ex) + sorted(R.used)
    if ex.panics:
        return unknown("panic paths", functions=fns)
    if ret is not None and ret != recv:
        return unknown("result pointer", functions=fns)
    for p, k, a in zip(ps, kinds, args):
        if R.vals(st, a) != p.rep(k):
            return unknown("operand changed", functions=fns)
    val = R.vals(st, recv)
    num = expected(op, ps)

    def leaf(c, terms, bools, path):
        r = matches(c, kind, tuple(terms), num)
        if r and op == ref.BASE:
            r = matches(c, kind, tuple(terms), expected(KNOWN_BASE, ps))
        return r
    f = fev.Split(eqs, nes).run(list(val), leaf)
    if f:
        return dict(status="unknown", detail=f[0], functions=fns)
    return proved(functions=fns, sub=4)


def goal_cond(ctx, tag, kind, m):
    B = Backend(ctx, tag)
    n = TN(kind, m)
    if n not in B.p.funcs:
        return unknown("no such method")
    fns = []
    k = 3 if kind == "NP" else 4
    for b in (0, 1):
        for alias in (False, True):
            R = fev.FRun(B, 3)
            a, c = [tuple(fv("%s%d" % (s, j)) for j in range(k)) for s in "ac"]
            x = R.obj("x", R.struct(*a))
            y = x if alias else R.obj("y", R.struct(*c))
            st, ret = R.ex.call1(R.st, n, [x, y, tm.const(b, I32)])
            fns += fnames(R.ex) + sorted(R.used)
            want = a if alias or not b else c
            if R.vals(st, x) != want or (not alias and R.vals(st, y) != c) or (ret is not None and ret != x):
                return dict(status="unknown", detail="flag %d" % b, functions=fns)
    return proved(functions=sorted(set(fns)), sub=4)


def goals(ctx):
    out = [("lemma: denominators do not vanish", goal_lemma, {}), ("lemma: the law is closed", goal_closed, {})]
    for tag in ctx.progs:
        lab = "default" if not tag else tag
        for (k, m) in OPS:
            out.append(("%s.%s[%s]" % (k, m, lab), goal_op, dict(tag=tag, kind=k, m=m)))
        for k, m in COND:
            out.append(("%s.%s[%s]" % (k, m, lab), goal_cond, dict(tag=tag, kind=k, m=m)))
    return out


EXP = {"EP": "point", "P": "point", "PP": "pp", "CP": "cp", "NP": "np"}


def concrete(op, Ps):
    if op == "add":
        return ref.add(*Ps)
    if op == "sub":
        return ref.sub(*Ps)
    if op == "dbl":
        return ref.add(Ps[0], Ps[0])
    if op == "neg":
        return ref.negp(Ps[0])
    if op == "id":
        return Ps[0]
    return op


def case(B, tag, kind, m, Ps, zs, alias=None):
    kinds, op = OPS[(kind, m)]
    want = concrete(op, Ps)
    vs = [["r", kind, rep(B, kind, (5, 7), 3, 2)]]
    names = []
    exp = {"r": [EXP[kind], [str(want[0]), str(want[1])]]}
    for j, (k, P) in enumerate(zip(kinds, Ps)):
        vs.append(["a%d" % j, k, rep(B, k, P, zs[j], zs[-1 - j])])
        names.append("a%d" % j)
        exp["a%d" % j] = ["raw", rep(B, k, P, zs[j], zs[-1 - j])]
    return {"tags": [tag], "prog": {"vars": vs, "steps": [{"m": "%s.%s" % (kind, m), "a": ["r"] + names}], "out": ["r"] + names}, "expect": exp,
            "note": "%s.%s on %s (scales %s)" % (kind, m, Ps, zs)}


def pool(ctx):
    out = []
    for tag in ctx.progs:
        B = Backend(ctx, tag)
        r = rng(ctx, "c08" + tag)
        pts = sample_points(ctx, 6 if not ctx.thorough else 40) + special_points()[::24 if not ctx.thorough else 3]
        zs = scales(ctx)
        for (k, m), (kinds, op) in OPS.items():
            if not kinds:
                out.append(case(B, tag, k, m, [], [1]))
                if m == "SetBase":
                    out[-1]["finding"] = "base-representative"
                    c = case(B, tag, k, m, [], [1])
                    c["expect"]["r"] = ["oneof", [[str(x) for x in P] for P in (ref.BASE, KNOWN_BASE)]]
                    out.append(c)
            elif len(kinds) == 1:
                for P, z in hint_reps(ctx, most=500) + (hint_niels(ctx) if "NP" in kinds else []):
                    out.append(case(B, tag, k, m, [P], [z, z]))
                for P in pts:
                    for z in (1, r.choice(zs)):
                        out.append(case(B, tag, k, m, [P], [z, r.choice(zs)]))
            else:
                for P, z in hint_reps(ctx, most=500) + (hint_niels(ctx) if "NP" in kinds else []):
                    Q, w = r.choice(pts), r.choice(zs)
                    out += [case(B, tag, k, m, [P, Q], [z, w]), case(B, tag, k, m, [Q, P], [w, z]), case(B, tag, k, m, [P, P], [z, z])]
                for P in pts:
                    for Q in [P, ref.negp(P), ref.add(P, ref.TORSION4[1]), ref.add(P, ref.TORSION4[2])] + [r.choice(pts) for _ in range(5)] + ref.TORSION4[:2]:
                        out.append(case(B, tag, k, m, [P, Q], [r.choice(zs), r.choice(zs)]))
        for k, m in COND:
            for b in (0, 1):
                for _ in range(8):
                    P, Q = r.choice(pts), r.choice(pts)
                    z, w = r.choice(zs), r.choice(zs)
                    out.append({"tags": [tag], "prog": {"vars": [["x", k, rep(B, k, P, z)], ["y", k, rep(B, k, Q, w)], ["f", "i32", str(b)]],
                                                        "steps": [{"m": "%s.%s" % (k, m), "a": ["x", "y", "f"]}], "out": ["x", "y"]},
                                "expect": {"x": ["raw", rep(B, k, Q, w) if b else rep(B, k, P, z)], "y": ["raw", rep(B, k, Q, w)]}, "note": "%s.%s flag %d" % (k, m, b)})
    return out
