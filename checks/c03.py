"""C03: inversion, (inverse) square roots."""
from .fields import *
from . import fepool
from . import fev
from symgo import ff
from symgo.ff import fv, fc, fadd as ffadd, fsub as ffsub, fmul as ffmul, ONE, ZERO, FTY

BOUNDS = "every field element a, in every representation of it that C01 covers; receiver equal to or distinct from the operand"
EXPLAIN = ("The functions are executed over abstract field values (the arithmetic has the contracts decided in C01 and C02). Every value is a monomial c*a^e; with "
           "x = a^((p-1)/4) the decisions are polynomials in x, and the solver (finite fields) decides them under x^4 = 1.")
ASSUME = ["Fermat: a^(p-1) = 1 for a != 0; Euler: a != 0 is a square iff a^((p-1)/2) = 1",
          "the contracts of field arithmetic and comparison decided in C01 and C02"]
Q4 = (ref.p - 1) // 4
A, CHI = fv("a"), fv("chi")


def monos(ts):
    """id -> (coefficient, exponent) of the terms that are monomials in a (a != 0: exponents modulo p-1)"""
    m = {}
    for u in tm.subterms(ts):
        if u.op == "fc":
            m[u.id] = (u.args[0], 0)
        elif u is A:
            m[u.id] = (1, 1)
        elif u.op == "fmul" and all(x.id in m for x in u.args):
            (c, e), (d, f) = (m[x.id] for x in u.args)
            m[u.id] = (c * d % ref.p, (e + f) % (ref.p - 1))
        elif u.op == "fneg" and u.args[0].id in m:
            c, e = m[u.args[0].id]
            m[u.id] = (-c % ref.p, e)
        elif u.op in ("fadd", "fsub") and all(x.id in m for x in u.args):
            (c, e), (d, f) = (m[x.id] for x in u.args)
            if e == f:
                m[u.id] = ((c + d if u.op == "fadd" else c - d) % ref.p, e)
        if u.id in m and m[u.id][0] == 0:
            m[u.id] = (0, 0)
    return m


def chiform(t, m):
    """t with its monomials written as powers of chi, or None"""
    if t.id in m:
        c, e = m[t.id]
        if e % Q4:
            return None
        r = fc(c)
        for _ in range(e // Q4):
            r = ffmul(r, CHI)
        return r
    if t.op in ("fadd", "fsub", "fmul", "fneg"):
        a = [chiform(x, m) for x in t.args]
        return None if None in a else ff.frebuild(t, a)
    return None


def rewrite(ts):
    """zero tests of monomials become polynomials in chi"""
    m = monos(ts)
    env = {}
    for u in tm.subterms(ts):
        if u.op == "fz":
            x = chiform(u.args[0], m)
            if x is not None:
                env[u] = ff.fz(x)
    return ff.fsubst(ts, env) if env else ts


def run(B, m, alias, level=2, drop=()):
    R = fev.FRun(B, level)
    for d in drop:
        R.ex.hooks.pop(FE(d), None)
    pa = R.obj("a", R.fe(A))
    pr = pa if alias else R.obj("r", R.fe(fv("old")))
    st, ret = R.ex.call1(R.st, FE(m), [pr, pa])
    fns = fnames(R.ex) + sorted(R.used)
    if R.ex.panics or (not alias and R.get(st, pa) is not A):
        raise Unsupported("panic or operand changed")
    val = R.get(st, pr)
    return val, ret, pr, fns, list(R.ex.obligations)


def at0(ts):
    return ff.fsubst(ts, {A: ZERO})


def goal_inverse(ctx, tag):
    B = Backend(ctx, tag)
    rs = []
    for alias in (False, True):
        v, ret, pr, fns, ob = run(B, "Inverse", alias)
        m = monos([v])
        z = at0([v])[0]
        if z is not ZERO and not ff.Ctx().zero(z):
            rs.append(refuted("inverse of 0", functions=fns))
        if v.id not in m:
            # not a monomial: decide a*v = 1 directly
            rs.append(unknown("not a monomial", functions=fns))
            continue
        c, e = m[v.id]
        # c * a^(e+1) = 1 for all a != 0: the exponent is a multiple of the group order
        s = z3.Solver()
        x, k = z3.Ints("x k")
        s.add(x == e + 1, z3.Or(x % (ref.p - 1) != 0, z3.IntVal(c) != 1))
        r = solve.check(s, "LIA", 10)
        rs.append((proved if r == z3.unsat and ret == pr else refuted)("exponent %d" % e, functions=fns))
    return combine(rs)


def sqrti_bad(m, v, flag, others, obs):
    """what is wrong with v (and the flag) as the inverse square root of a; others: impossible cases, obs: obligations"""
    bad = []
    # a = 0
    zs = at0([v, flag] + others + obs)
    if not (zs[0] is ZERO or ff.Ctx().zero(zs[0])):
        bad.append("result for 0 is not 0")
    if m == "InvSqrtI" and zs[1] is not FALSE:
        bad.append("flag for 0")
    # a != 0
    ts = rewrite([v, flag] + others + obs)
    y2 = ffmul(CHI, CHI)
    hyp = [ffsub(ffmul(y2, y2), ONE)]
    want = {1: ff.fz(ffsub(y2, ONE))}

    def leaf(c, terms, bools, path):
        val = terms[0]
        mm = monos([val])
        if val.id not in mm:
            return "result is not a monomial"
        co, e = mm[val.id]
        if (2 * e + 1) % Q4:
            return "a*r^2 is no power of a^((p-1)/4): exponent %d" % e
        ar2 = fc(co * co)
        for _ in range((2 * e + 1) % (ref.p - 1) // Q4):
            ar2 = ffmul(ar2, CHI)
        fl, sq = bools[0], bools[1]
        for b in bools[2:2 + len(others)]:
            if b is not FALSE:
                return "flag neither 0 nor 1"
        for b in bools[2 + len(others):]:
            if b is not TRUE:
                return "obligation fails"
        if sq is TRUE:
            if m == "InvSqrtI" and fl is not TRUE:
                return "square not reported"
            return None if c.zero(ffsub(ar2, ONE)) else "a*r^2 != 1 for a square"
        if m == "InvSqrt":
            return None if c.zero(ffadd(ffmul(ar2, ar2), ONE)) else "a*r^2 is not a root of -1 for a non-square"
        if fl is not FALSE:
            return "non-square reported as square"
        return None if c.zero(ffsub(ffmul(fc(ref.I), ar2), ONE)) else "i*a*r^2 != 1 for a non-square"
    return bad + fev.Split(hyp, [CHI]).run([ts[0]], leaf, [ts[1], want[1]] + ts[2:])


def goal_sqrti(ctx, tag, m):
    """InvSqrt and InvSqrtI"""
    B = Backend(ctx, tag)
    rs = []
    for alias in (False, True):
        v, ret, pr, fns, ob = run(B, m, alias)
        bad = []
        flag, others = ff.TRUE, []
        if m == "InvSqrt":
            if ret != pr:
                bad.append("result pointer")
        else:
            f = fev.flag(ret)
            flag, others = f.get(1, FALSE), [f[k] for k in f if k not in (0, 1)]
        bad += sqrti_bad(m, v, flag, others, [fev.boolnf(ob_cond(o)) for o in ob])
        rs.append(proved(functions=fns, sub=4) if not bad else unknown("alias %s: %s" % (alias, bad[0]), functions=fns))
    return combine(rs)


def ob_cond(o):
    return tm.bor(tm.bnot(o[0]), o[1])


def goal_sqrt(ctx, tag):
    """Sqrt of a square is its non-negative root (over the contract of InvSqrt, or through it)"""
    B = Backend(ctx, tag)
    rs = []
    w = fv("w")
    for alias in (False, True):
        v, ret, pr, fns, ob = run(B, "Sqrt", alias, 3, ("Sqrt",))
        if ret != pr:
            rs.append(unknown("result pointer", functions=fns))
            continue
        hyp = [ffsub(ffmul(w, w), A)]

        def leaf(c, terms, bools, path):
            t = terms[0]
            if not c.zero(ffsub(ffmul(t, t), A)):
                return "square of the root"
            return None if c.sign(t, False) else "sign of the root"

        def lem(c, kind, a, r):
            if kind == "root" and c.zero(ffsub(a, ffmul(w, w))):
                c.eqs.append(ONE)        # a is a square: no such case
        f = fev.Split(hyp, lemmas=lem).run([v], leaf)
        rs.append(proved(functions=fns, sub=2) if not f else unknown("alias %s: %s" % (alias, f[0]), functions=fns))
    return combine(rs)


def goals(ctx):
    out = []
    for tag in ctx.progs:
        lab = "default" if not tag else tag
        out.append(("Inverse[%s]" % lab, goal_inverse, dict(tag=tag)))
        out.append(("InvSqrt[%s]" % lab, goal_sqrti, dict(tag=tag, m="InvSqrt")))
        out.append(("InvSqrtI[%s]" % lab, goal_sqrti, dict(tag=tag, m="InvSqrtI")))
        out.append(("Sqrt[%s]" % lab, goal_sqrt, dict(tag=tag)))
    return out


def case(B, tag, b, form):
    x = int.from_bytes(b, "little") % 2**255 % ref.p
    a = -x % ref.p if form == "n" else x
    Z = ["0"] * B.n
    pre = [{"m": "FE.SetBytes", "a": ["a", "b"]}, {"m": "FE.SetOne", "a": ["one"]}]
    pre += {"s": [], "n": [{"m": "FE.Neg", "a": ["a", "a"]}], "m": [{"m": "FE.Mul", "a": ["a", "a", "one"]}]}[form]
    steps = pre + [{"m": "FE.Set", "a": ["c0", "a"]}]
    exp = {"a": ["fe", str(a)]}
    vs = [["a", "FE", Z], ["one", "FE", Z], ["c0", "FE", Z], ["b", "b32", b.hex()]]
    outs = ["a"]

    def both(m, vn, ret=None):
        nonlocal steps
        vs.extend([[vn, "FE", ["9"] * B.n], [vn + "2", "FE", Z]])
        st = {"m": "FE." + m, "a": [vn, "a"]}
        st2 = {"m": "FE." + m, "a": [vn + "2", vn + "2"]}
        if ret:
            st["r"], st2["r"] = [ret], [ret + "2"]
        steps += [st, {"m": "FE.Set", "a": [vn + "2", "a"]}, st2]
        outs.extend([vn, vn + "2"] + ([ret, ret + "2"] if ret else []))
    sq = ref.is_sq(a) and a != 0
    both("Inverse", "iv")
    for s in ("", "2"):
        exp["iv" + s] = ["fe", str(ref.inv(a))]
    both("InvSqrtI", "ri", "f")
    # a*r^2 (square) or i*a*r^2 (otherwise) must be 1 (0 when a = 0)
    for s in ("", "2"):
        exp["f" + s] = ["int", int(sq)]
        vs.append(["t" + s, "FE", Z])
        steps += [{"m": "FE.Square", "a": ["t" + s, "ri" + s]}, {"m": "FE.Mul", "a": ["t" + s, "t" + s, "a"]}]
        outs.append("t" + s)
        exp["t" + s] = ["fe", str(0 if a == 0 else 1 if sq else ref.inv(ref.I))]
    if sq or a == 0:
        both("InvSqrt", "r")
        for s in ("", "2"):
            vs.append(["u" + s, "FE", Z])
            steps += [{"m": "FE.Square", "a": ["u" + s, "r" + s]}, {"m": "FE.Mul", "a": ["u" + s, "u" + s, "a"]}]
            outs.append("u" + s)
            exp["u" + s] = ["fe", str(int(a != 0))]
        both("Sqrt", "q")
        for s in ("", "2"):
            exp["q" + s] = ["fe", str(ref.sqrt_ratio(a, 1)[1])]
    if a == 0:
        exp["ri"] = exp["ri2"] = exp["r"] = exp["r2"] = ["fe", "0"]
    return {"tags": [tag], "prog": {"vars": vs, "steps": steps, "out": outs}, "expect": exp, "note": "roots and inverse of %d (form %s)" % (a, form)}


def pool(ctx):
    out = []
    for tag in ctx.progs:
        B = Backend(ctx, tag)
        r = rng(ctx, "c03" + tag)
        vals = raw_fe_bytes(ctx, 6) + [ref.b32(v) for v in fepool.extremes(B, r)]
        vals += [ref.b32(x) for x in list(range(0, 40)) + [ref.p - k for k in range(1, 20)]]
        vals += [ref.b32(pow(x, k, ref.p)) for x in (2, 3, ref.I, ref.d, ref.p - 1 - ref.d) for k in (2, 3, 4, 8)]
        for k in range(0, 255, 5):
            vals += [ref.b32(2**k), ref.b32(ref.p - 2**k if k else ref.p - 1)]
        for v in getattr(ctx, "hints", []):
            for w in (v % ref.p, -v % ref.p, ref.inv(v % ref.p), v * v % ref.p, v * v * ref.I % ref.p):
                vals.append(ref.b32(w))
        for b in vals:
            for f in ("s", "n", "m"):
                out.append(case(B, tag, b, f))
    return out
