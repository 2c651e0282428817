"""C12: scalar multiplication."""
from .grp import *
from . import grp

BOUNDS = ("all scalars below 2^253 (all canonical ones), all points as an arbitrary element of an abelian group, every table filled with the multiples it should hold; "
          "loops unrolled completely (51 windows of 5 bits, 64 of 4 bits, 256 digits of the non-adjacent form); the 256 constants of the built-in table are evaluated exactly")
EXPLAIN = ("The multiplications are executed with the point operations as the group law (contracts of C08) on integer multiples of the operand; the multiple in the receiver comes out as a linear form in "
           "digit terms over the bits of the scalar.  The solver (bit-vectors) shows by a carry chain that this form is the scalar; for the variable-time recoding the chain is an induction along its loop.  "
           "Table indices and selection flags are shown to be in range for every scalar.")
ASSUME = ["the contracts of the point operations decided in C08 and of Scalar.BytesInto inlined", "the Edwards curve with its addition law is an abelian group"]
METHODS = ["ScalarMult", "PublicScalarMult", "ScalarMultTable", "PublicScalarMultTable", "ScalarMultBase", "PublicScalarMultBase"]


def below_l(lim):
    r = FALSE
    for i in range(8):
        w = tm.const((ref.l >> (32 * i)) & 0xffffffff, U32)
        r = tm.bor(tm.cmp("lt", lim[i], w), tm.band(tm.cmp("eq", lim[i], w), r))
    return r


def known_base(P):
    out = {}
    Q = P
    for i in range(32):
        V = Q
        for v in range(8):
            out[V] = (v + 1) << (8 * i)
            V = ref.add(V, Q)
        for _ in range(8):
            Q = ref.add(Q, Q)
    return out


def bases():
    """the representatives of the base point (see C08)"""
    from .c08 import KNOWN_BASE
    return [ref.BASE, KNOWN_BASE]


def discharge(R, C, asm):
    """the obligations of the execution; None or a description"""
    memo = {}
    rec = R.rec if R.rec is not None and R.rec.vars else None
    byvar = {}
    for g, c, what in R.ex.obligations:
        vs = {u for u in tm.subterms([c]) if u.op == "var"}
        gs = list(g.args) if g.op == "band" else [g]
        if rec is not None and vs and vs <= rec.vset:
            hyp = [x for x in gs if x.op != "bor" and {u for u in tm.subterms([x]) if u.op == "var"} <= vs]
            ren = {v: tm.var("d%d" % i, v.ty) for i, v in enumerate(sorted(vs, key=lambda v: v.id))}
            hs = tm.subst(hyp + [digit_range(v) for v in vs] + [c], ren)
            key = tuple(x.id for x in hs)
            if key not in memo:
                memo[key] = solve.prove_bv(hs[-1], hs[:-1], timeout=20)[0]
            if memo[key] == "proved":
                continue
        t = tm.bor(tm.bnot(g), c)
        ok = False
        for u, (lo, hi) in C.ranges.items():
            if u.id not in byvar:
                byvar[u.id] = None
        sub = {u.id for u in tm.subterms([t])}
        for u, (lo, hi) in C.ranges.items():
            if u.id in sub:
                x = tm.var("cut", u.ty)
                n = tm.subst([t], {u: x})[0]
                if (n.id, lo, hi) not in memo:
                    memo[(n.id, lo, hi)] = solve.prove_bv(n, [tm.cmp("le", tm.const(lo, u.ty), x), tm.cmp("le", x, tm.const(hi, u.ty))], timeout=10)[0]
                if memo[(n.id, lo, hi)] == "proved":
                    ok = True
                    break
        if ok:
            continue
        r = C.ask(C.bv.t(t))
        if r != z3.unsat:
            return what, (C.model if r == z3.sat else None)
    for g, msg, fn in R.ex.panics:
        r = C.ask(C.bv.t(tm.bnot(g)))
        if r != z3.unsat:
            return "panic %s in %s" % (msg, fn), (C.model if r == z3.sat else None)
    return None


def scalar_of(env):
    return sum(env.get("s_%d" % i, 0) << (32 * i) for i in range(8))


def goal_mult(ctx, tag, m, alias=False):
    r = None
    for strict in (False, True):
        r = run_mult(ctx, tag, m, alias, strict)
        if r["status"] == "proved" or not r.pop("again", False):
            break
    return r


def run_mult(ctx, tag, m, alias, strict):
    B = Backend(ctx, tag)
    n = PT(m)
    if n not in B.p.funcs:
        return unknown("no such method")
    base = m.endswith("Base")
    detail = ""
    out = None
    for P0 in (bases() if base else [None]):
        R = GRun(B, known=known_base(P0) if base else None, tmax=240)
        ex, st = R.ex, R.st
        lim = limbvars("s", 8, U32)
        asm = [below_l(lim) if strict else tm.cmp("lt", lim[7], tm.const(1 << 29, U32))]
        if m == "PublicScalarMult":
            ex.predicate = True
            ex.on_header = R.rec = Recoding(lim, 32, [tm.cmp("lt", lim[7], tm.const(1 << 29, U32))])
        s = Ptr(ex.new(st, lim, "s"))
        old = R.struct(*[fv("old%d" % j) for j in range(4)])
        q = R.obj("q", R.gval("EP", Form(1)))
        r = q if alias else R.obj("r", old)
        keep = [(s, lim)]
        if base:
            args = [r, s]
        elif "Table" in m:
            tv = tuple(tuple(R.gval("NP", Form((v + 1) << (8 * i))) for v in range(8)) for i in range(32))
            tb = R.obj("t", tv)
            keep.append((tb, tv))
            args = [r, tb, s]
        else:
            if not alias:
                keep.append((q, R.gval("EP", Form(1))))
            args = [r, q, s]
        try:
            st, ret = ex.call1(st, n, args)
            F = R.gget(st, "P", r)
        except Unsupported as e:
            detail = str(e)
            if R.rec is not None and R.rec.why:
                detail += " (" + R.rec.why + ")"
            fns = fnames(ex) + sorted(R.used)
            continue
        fns = fnames(ex) + sorted(R.used)
        if ret != r:
            return unknown("result pointer", functions=fns)
        for o, v in keep:
            if ex.load(st, o) != v:
                return unknown("operand changed", functions=fns)
        C = Chain(R, F, lim, 32, 256, asm, rec=R.rec)
        res = C.run()
        bad = None
        if res is None:
            bad = discharge(R, C, asm)
            if bad is None:
                return proved(functions=fns, sub=C.n + R.queries + len(ex.obligations))
        env = res[1] if res else bad[1]
        out = unknown(bad[0] if bad else "the multiple is not shown to be the scalar (%s)" % res[0], functions=fns)
        if env:
            v = scalar_of(env)
            if v < ref.l:
                out["cases"] = cases(ctx, B, tag, m, [v], sample(ctx, 3))
            elif not strict:
                out["again"] = True
    return out or unknown(detail, functions=fns)


def goal_compute(ctx, tag):
    B = Backend(ctx, tag)
    n = "(*%s.ScalarMultTable).Compute" % MOD
    if n not in B.p.funcs:
        return unknown("no such method")
    R = GRun(B)
    q = R.obj("q", R.gval("EP", Form(1)))
    t = R.obj("t", tuple(tuple(R.struct(*[fv("old%d_%d_%d" % (i, v, j)) for j in range(3)]) for v in range(8)) for i in range(32)))
    st, ret = R.ex.call1(R.st, n, [t, q])
    fns = fnames(R.ex) + sorted(R.used)
    if R.ex.panics or R.ex.obligations:
        return unknown("panic", functions=fns)
    if R.ex.load(st, q) != R.gval("EP", Form(1)):
        return unknown("operand changed", functions=fns)
    for i in range(32):
        for v in range(8):
            F = R.gget(st, "NP", Ptr(t.obj, t.path + (i, v)))
            if F.key() != Form((v + 1) << (8 * i)).key():
                return unknown("entry %d, %d" % (i, v), functions=fns)
    return proved(functions=fns, sub=256)


def goal_table(ctx, tag):
    """the constants of the built-in table"""
    B = Backend(ctx, tag)
    ex, st = harness(B.p)
    g = [x for x in B.p.globals if x.endswith("edwards25519.BaseScalarMultTable")]
    if len(g) != 1:
        return unknown("no such variable")
    val = st.mem["g:" + g[0]]
    bs = [(P, {v: k for k, v in known_base(P).items()}) for P in bases()]
    for i in range(32):
        for v in range(8):
            co = [sum(tm.cv(x) << w for x, w in zip(c, B.W)) % ref.p for c in val[i][v]]
            P = affine("NP", co)
            bs = [(Q, k) for Q, k in bs if k[(v + 1) << (8 * i)] == P]
            if not bs:
                w = (v + 1) << (8 * i)
                cs = []
                for s in (w, w - 1 if v else w, ref.l - w, w + 1):
                    cs += cases(ctx, B, tag, "ScalarMultBase", [s % ref.l], []) + cases(ctx, B, tag, "PublicScalarMultBase", [s % ref.l], [])
                return dict(status="unknown", detail="entry %d, %d" % (i, v), cases=cs, functions=[])
    return proved(functions=[g[0]], sub=256)


def sample(ctx, n):
    pts = sample_points(ctx, 4, even=True)
    return [pts[5 % len(pts)], pts[-1], pts[0], pts[1]][:n] if n < 5 else pts[:n]


MULS = {}


def mul(s, P):
    """s*P by doubling in extended coordinates (reference arithmetic)"""
    k = (s, P)
    if k not in MULS:
        MULS[k] = ref.mul(s, P)
    return MULS[k]


def one(B, tag, m, s, P, W, z=1, alias=False):
    vs = [["s", "S", limbs32(s)], ["r", "P", ep(B, (5, 7), 3)]]
    steps = []
    exp = {"s": ["raw", limbs32(s)], "r": ["elem" if m.endswith("Base") else "point", [str(x) for x in W]]}
    out = ["r", "s"]
    if m.endswith("Base"):
        steps.append({"m": "P." + m, "a": ["r", "s"]})
    else:
        vs.append(["q", "P", ep(B, P, z)])
        if "Table" in m:
            vs.append(["t", "T", None])
            steps += [{"m": "T.Compute", "a": ["t", "q"]}, {"m": "P." + m, "a": ["r", "t", "s"]}]
        elif alias:
            steps.append({"m": "P." + m, "a": ["q", "q", "s"]})
            exp = {"q": exp["r"], "s": exp["s"]}
            out = ["q", "s"]
        else:
            steps.append({"m": "P." + m, "a": ["r", "q", "s"]})
        if not alias:
            exp["q"] = ["raw", ep(B, P, z)]
            out.append("q")
    return {"tags": [tag], "prog": {"vars": vs, "steps": steps, "out": out}, "expect": exp, "note": "%s with s=%d, q=%s" % (m, s, P)}


def cases(ctx, B, tag, m, ss, pts, zs=(7,)):
    out = []
    for s in ss:
        if m.endswith("Base"):
            out.append(one(B, tag, m, s, None, mul(s, ref.BASE)))
        else:
            for P in pts:
                for z in zs:
                    out.append(one(B, tag, m, s, P, mul(s, P), z))
                    if "Table" not in m:
                        out.append(one(B, tag, m, s, P, mul(s, P), z, True))
    return out


def goals(ctx):
    out = []
    for tag in ctx.progs:
        lab = "default" if not tag else tag
        for m in METHODS:
            out.append(("%s[%s]" % (m, lab), goal_mult, dict(tag=tag, m=m, _w=3 if m == "PublicScalarMult" else 2 if m == "ScalarMult" else 1)))
        for m in ("ScalarMult", "PublicScalarMult"):
            out.append(("%s, receiver is the operand[%s]" % (m, lab), goal_mult, dict(tag=tag, m=m, alias=True, _w=3)))
        out.append(("Compute[%s]" % lab, goal_compute, dict(tag=tag)))
        out.append(("built-in table[%s]" % lab, goal_table, dict(tag=tag)))
    return out


def pool(ctx):
    out = []
    r = rng(ctx, "c12")
    ss = edge_scalars(ctx, 6)
    pts = sample_points(ctx, 3, even=True)
    for tag in ctx.progs:
        B = Backend(ctx, tag)
        for j, v in enumerate([v for v in getattr(ctx, "hints", []) if v < ref.l][:60]):
            for m in METHODS:
                out += cases(ctx, B, tag, m, [v], [pts[8 + j % (len(pts) - 8)]])
        for j, (P, z) in enumerate(hint_reps(ctx, True, 60)):
            for m in METHODS:
                if "Base" not in m:
                    out += cases(ctx, B, tag, m, [ss[j % len(ss)]], [P], [z])
        for j, s in enumerate(ss):
            ps = [pts[j % len(pts)], r.choice(pts)]
            for m in METHODS:
                out += cases(ctx, B, tag, m, [s], ps[:1 if "Table" in m else 2])
    return out


def search(ctx, res):
    """digit patterns at every position, when a goal is left open"""
    out = []
    base = mul(3, ref.BASE)
    P = base
    sc = [ref.l - 1]
    vals = {}
    pw = [base]
    for i in range(253):
        pw.append(ref.add(pw[-1], pw[-1]))
    bw = [ref.BASE]
    for i in range(253):
        bw.append(ref.add(bw[-1], bw[-1]))
    ws = [1, 15, 16, 17, 31, 33, 7, 8, 9, 0x7f, 0xff, 0x88, 0x210, 0x1f0]
    for tag in ctx.progs:
        B = Backend(ctx, tag)
        for i in range(0, 252):
            for w in ws:
                s = w << i
                if s >= ref.l:
                    continue
                for m in METHODS:
                    if "Table" in m:
                        continue
                    src = bw if m.endswith("Base") else pw
                    W = (0, 1)
                    for j in range(10):
                        if w >> j & 1:
                            W = ref.add(W, src[i + j])
                    out.append(one(B, tag, m, s, base, W))
                    # and the complement l - s
                    out.append(one(B, tag, m, ref.l - s, base, ref.negp(W)))
    return out
