"""Shared helpers for the checks."""
import random
import time
import z3
import ref
from symgo import terms as tm
from symgo import solve
from symgo.exec import Executor, Ptr, Slice, Unsupported, PanicPath, Mux
from symgo.lif import LIF, padd, pscale, pconst
from symgo.tlia import TLIA, fadd, prove_range_cone
from symgo.terms import TRUE, FALSE, BOOL
from symgo.build import MOD, ED

U8, U32, U64 = (8, False), (32, False), (64, False)
I8, I32, I64 = (8, True), (32, True), (64, True)
L_ORDER = ref.l
P25519 = ref.p


def S(name):
    return "(*%s.Scalar).%s" % (MOD, name)


def PT(name):
    return "(*%s.Point).%s" % (MOD, name)


def FE(name):
    return "(*%s.FieldElement).%s" % (ED, name)


def EDT(t, name):
    return "(*%s.%s).%s" % (ED, t, name)


EXECS = []


def harness(prog, hooks=None):
    ex = Executor(prog, hooks)
    EXECS.append(ex)
    st = ex.init_state()
    return ex, st


def bytesvars(name, n):
    return tuple(tm.var("%s_%d" % (name, i), U8) for i in range(n))


def limbvars(name, n, ty):
    return tuple(tm.var("%s_%d" % (name, i), ty) for i in range(n))


def branch_inputs(ex, groups, cons=(), per=6, limit=12, tmax=30):
    """operands that drive the execution into either side of its branches; groups: (variables, bits, bound)"""
    import random as rnd
    R = rnd.Random(1)
    end = time.time() + tmax
    own = {v for vs, _, _ in groups for v in vs}
    freq = {}
    for b in ex.branches:
        freq[b[2:]] = freq.get(b[2:], 0) + 1
    conds = []
    for c, g, *site in ex.branches:
        gs = [x for x in (g if isinstance(g, (list, tuple)) else [g])]
        for t in (c, tm.bnot(c)):
            conds.append((freq[tuple(site)] // 8, -len(gs), tm.band(t, *gs)))
    out = []
    for *_, t in sorted(conds, key=lambda x: x[:2])[:limit]:
        if not {u for u in tm.subterms([t]) if u.op == "var"} <= own:
            continue
        for _ in range(per):
            if time.time() > end:
                return out
            bv = solve.BV()
            s = z3.SolverFor("QF_BV")
            s.set("timeout", 4000)
            s.add(bv.t(t), *[bv.t(c) for c in cons])
            vals = []
            for vs, w, bound in groups:
                v = R.randrange(bound)
                vals.append([(v >> (w * i)) & ((1 << w) - 1) for i in range(len(vs))])
            if s.check() != z3.sat:
                break
            lits = [(j, i, v) for j, (vs, _, _) in enumerate(groups) for i, v in enumerate(vs)]
            R.shuffle(lits)
            for j, i, v in lits:
                c = bv.t(v) == vals[j][i]
                if s.check(c) == z3.sat:
                    s.add(c)
            if s.check() != z3.sat:
                break
            m = s.model()
            out.append(tuple(sum(m.eval(bv.t(v), model_completion=True).as_long() << (w * i) for i, v in enumerate(vs)) for vs, w, _ in groups))
    return out


def proved(detail="", **kw):
    return dict(status="proved", detail=detail, **kw)


def unknown(detail="", **kw):
    return dict(status="unknown", detail=detail, **kw)


def refuted(detail="", **kw):
    return dict(status="refuted", detail=detail, **kw)


def combine(rs):
    """conjunction of sub-results"""
    out = {"status": "proved", "detail": "", "cases": [], "functions": [], "sub": 0}
    for r in rs:
        out["cases"] += r.get("cases", [])
        out["functions"] += r.get("functions", [])
        out["sub"] += r.get("sub", 1)
        if r["status"] != "proved":
            if out["status"] == "proved" or r["status"] == "refuted":
                out["status"] = r["status"]
            out["detail"] += "; " + str(r.get("detail", ""))
    out["functions"] = sorted(set(out["functions"]))
    return out


def fnames(ex):
    return [n for n in ex.called if MOD in n]


def rng(ctx, salt=""):
    return random.Random("%d/%s" % (ctx.seed, salt))


# ---- interesting concrete values ------------------------------------------

def edge_scalars(ctx, n=12):
    l = ref.l
    v = [0, 1, 2, l - 1, l - 2, 2**252 - 1, 2**252, 2**128 - 1, 2**128, 2**32, 2**32 - 1, l // 2, (l + 1) // 2,
         (l - 1) & ~(2**21 - 1), int("01" * 126, 2) % l, 2**251 + 2**31, l - 2**32, l - 2**128, 2**64 - 1, 2**224 - 1, 2**252 + 2**63,
         8, 15, 16, 31, 2**251 - 1, (2**252 - 1) ^ (2**224 - 1), l - 2**224]
    r = rng(ctx, "sc")
    v += [r.randrange(l) for _ in range(n)]
    return v


def edge_fes(ctx, n=8):
    p = ref.p
    v = [0, 1, 2, p - 1, p - 2, 19, 18, 2**255 - 20, 2**254, 2**51 - 1, 2**51, 2**26 - 1, 2**26, 2**25, 2**204 - 1, (p - 1) // 2, (p + 1) // 2,
         ref.I, p - ref.I, ref.d, int("10" * 127, 2), int("01" * 127, 2), 2**255 - 20 - 2**51, 2**230 - 1, p - 2**230]
    r = rng(ctx, "fe")
    v += [r.randrange(p) for _ in range(n)]
    return v


def raw_fe_bytes(ctx, n=4):
    """32-byte strings for decoding, non-canonical ones included"""
    p = ref.p
    v = [ref.b32(x) for x in edge_fes(ctx, n)]
    v += [ref.b32(x) for x in (p, p + 1, p + 2, p + 18, 2**255 - 1, 2**255, 2**255 + 1, 2**256 - 1, 2**255 + p, 2**255 + p - 1, 2**256 - 2)]
    return v


def limbs32(v):
    return [str((v >> (32 * i)) & 0xffffffff) for i in range(8)]


def smt_check(ctxfacts, neg, timeout=60, kind="LIA", logic=None):
    s = z3.Solver() if logic is None else z3.SolverFor(logic)
    s.add(ctxfacts)
    s.add(neg)
    r = solve.check(s, kind, timeout)
    if r == z3.unsat:
        return "proved", None
    if r == z3.sat:
        return "failed", s.model()
    return "unknown", None


class TQ:
    """A query on the exact term-level integer encoding."""

    def __init__(self, boxes=None):
        self.X = TLIA(boxes)
        self.forms = []

    def val(self, terms, w):
        f = {}
        for i, t in enumerate(terms):
            f = fadd(f, self.X.form(t), 1 << (w * i))
        self.forms.append(f)
        return f

    def prove(self, make, assume=None, timeout=60, bools=()):
        """make(z) / assume(z) -> z3 formulas where z(form) is the z3 expression"""
        X = self.X
        forms = list(self.forms)
        for b in bools:
            X.bform(b)
            forms += X.bdeps(b)
        facts = X.facts(forms)
        s = z3.Solver()
        s.add(facts)
        if assume:
            s.add(assume(X.zexpr))
        s.add(z3.Not(make(X.zexpr)))
        r = solve.check(s, "LIA", timeout)
        if r == z3.unsat:
            return "proved", None
        if r == z3.sat:
            return ("failed" if not X.opaq else "abstract"), s.model()
        return "unknown", None

    def model(self, m, t):
        return m.eval(self.X.zexpr(self.X.form(t)), model_completion=True).as_long()
