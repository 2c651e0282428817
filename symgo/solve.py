"""Solver side: LIF polynomials to linear integer arithmetic, terms to bit-vectors."""
import time
import z3
from . import terms as tm
from .terms import T, BOOL
from .lif import padd, pconst, pscale


class Stats:
    def __init__(self):
        self.queries = self.unsat = self.sat = self.unknown = 0
        self.time = 0.0
        self.by = {}

    def add(self, res, dt, kind):
        self.queries += 1
        self.time += dt
        setattr(self, str(res), getattr(self, str(res)) + 1)
        self.by[kind] = self.by.get(kind, 0) + 1

    def merge(self, d):
        for k in ("queries", "unsat", "sat", "unknown", "time"):
            setattr(self, k, getattr(self, k) + d[k])
        for k, v in d["by"].items():
            self.by[k] = self.by.get(k, 0) + v

    def dump(self):
        return {k: getattr(self, k) for k in ("queries", "unsat", "sat", "unknown", "time", "by")}


STATS = Stats()


def check(s, kind, timeout=None):
    if timeout:
        s.set("timeout", int(timeout * 1000))
    t = time.time()
    r = s.check()
    STATS.add(r, time.time() - t, kind)
    return r


class LinCtx:
    """z3 integer variables for the monomials of a LIF, with the facts about them."""

    def __init__(self, L, flat=False):
        self.L = L
        self.flat = flat      # only the flattened definition of a quotient
        self.v = {}
        self.facts = []
        self.done = set()

    def mono(self, m):
        if not m:
            return z3.IntVal(1)
        x = self.v.get(m)
        if x is None:
            x = z3.Int("m" + "_".join(map(str, m)))
            self.v[m] = x
            lo, hi = self.L.mono_iv(m)
            self.facts.append(x >= lo)
            self.facts.append(x <= hi)
            if len(m) > 1:
                # products with a 0/1 atom are selected exactly
                for i, b in enumerate(m):
                    if b in self.L.bools:
                        rest = m[:i] + m[i + 1:]
                        y = self.mono(rest)
                        bb = self.mono((b,))
                        self.facts.append(z3.Implies(bb == 0, x == 0))
                        self.facts.append(z3.Implies(bb == 1, x == y))
                        break
            for a in m:
                self.atom(a)
        return x

    def atom(self, a):
        if a in self.done:
            return
        self.done.add(a)
        at = self.L.atoms[a]
        q = self.mono((a,))
        for D, k in at.alts[:1] if self.flat else at.alts:
            d = self.expr(D)
            self.facts.append(q * (1 << k) <= d)
            self.facts.append(d <= q * (1 << k) + ((1 << k) - 1))

    def expr(self, P):
        xs = [self.mono(m) * c if m else z3.IntVal(c) for m, c in P.items()]
        return z3.Sum(xs) if xs else z3.IntVal(0)

    def solver(self, tactic=None):
        s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
        s.add(self.facts)
        return s


def sym(c, m):
    c %= m
    return c - m if c > m // 2 else c


def prove_zero_mod(L, D, m, extra=(), timeout=20, kind="LIA", flats=(True, False)):
    """Is D = 0 (mod m) in every assignment?  Returns (status, model-context)."""
    ctx = LinCtx(L)
    R = {}
    for k, c in D.items():
        c2 = sym(c, m)
        if c2:
            R[k] = c2
    if not R:
        # every coefficient is a multiple of m: the solver confirms the divisibility
        e = ctx.expr(D)
        K = z3.Int("K")
        r = z3.Int("rem")
        s = z3.Solver()
        s.add(e == m * K + r, r > 0, r < m)
        st = check(s, kind, timeout)
        if st == z3.unsat:
            return "proved", None
        # linear reasoning over many monomials can exceed the solver: quotient given explicitly
        s = z3.Solver()
        s.add(e != m * ctx.expr({k: c // m for k, c in D.items()}))
        st = check(s, kind, timeout)
        return ("proved" if st == z3.unsat else "unknown"), None
    res = "unknown", None
    for flat in flats:
        ctx = LinCtx(L, flat)
        e = ctx.expr(R)
        ex = []
        for P, lo, hi in extra:
            x = ctx.expr(P)
            ex += [x >= lo, x <= hi]
        s = z3.Solver()
        lo, hi = L.bound(R)
        ats = sorted({a for k in R for a in k})
        n = 1
        for a in ats:
            n *= L.atoms[a].hi - L.atoms[a].lo + 1
            if n > 256:
                break
        if -m < lo and hi < m:
            s.add(e != 0)
        elif n <= 256:
            bad = []
            import itertools
            for vals in itertools.product(*[range(L.atoms[a].lo, L.atoms[a].hi + 1) for a in ats]):
                d = dict(zip(ats, vals))
                v = 0
                for k, c in R.items():
                    for a in k:
                        c *= d[a]
                    v += c
                if v % m:
                    bad.append(z3.And(*[ctx.mono((a,)) == d[a] for a in ats]))
            s.add(z3.Or(*bad) if bad else z3.BoolVal(False))
        else:
            K = z3.Int("K")
            r = z3.Int("rem")
            s.add(e == m * K + r, r > 0, r < m)
        s.add(ctx.facts)
        s.add(ex)
        st = check(s, kind, timeout)
        if st == z3.unsat:
            return "proved", None
        if st == z3.sat:
            res = "failed", (ctx, s.model())
    return res


def prove_lin(L, cons, timeout=20, kind="LIA"):
    """cons(ctx) -> z3 formula that must be valid under the facts."""
    ctx = LinCtx(L)
    f = cons(ctx)
    s = ctx.solver()
    s.add(z3.Not(f))
    st = check(s, kind, timeout)
    if st == z3.unsat:
        return "proved", None
    if st == z3.sat:
        return "failed", (ctx, s.model())
    return "unknown", None


def prove_range(L, P, lo, hi, timeout=20):
    return prove_lin(L, lambda c: z3.And(c.expr(P) >= lo, c.expr(P) <= hi), timeout)


# ---- bit-vectors ------------------------------------------------------------

class BV:
    def __init__(self):
        self.memo = {}
        self.vars = {}
        self.uf = {}

    def t(self, t):
        m = self.memo
        if t.id in m:
            return m[t.id]
        for u in tm.subterms([t]):
            if u.id not in m:
                m[u.id] = self._t(u)
        return m[t.id]

    def _t(self, u):
        op, ty = u.op, u.ty
        w = ty[0]
        if op == "c":
            return z3.BoolVal(bool(u.args[0])) if ty == BOOL else z3.BitVecVal(u.args[0], w)
        if op == "var":
            x = z3.Bool(u.args[0]) if ty == BOOL else z3.BitVec(u.args[0], w)
            self.vars[u.args[0]] = (u, x)
            return x
        if op in ("hash", "uf"):
            x = z3.BitVec("%s_%d" % (op, u.id), w)
            self.vars["%s_%d" % (op, u.id)] = (u, x)
            return x
        if ty == (-1, False):          # a field element: only its decisions and bytes matter here
            return None
        if op in ("fz", "fsg", "fsq"):
            x = z3.Bool("%s_%d" % (op, u.id))
            self.vars["%s_%d" % (op, u.id)] = (u, x)
            return x
        if op == "fby":
            x = z3.BitVec("%s_%d" % (op, u.id), w)
            self.vars["%s_%d" % (op, u.id)] = (u, x)
            return x
        a = [self.memo[x.id] if isinstance(x, T) else x for x in u.args]
        if op == "add":
            return a[0] + a[1]
        if op == "sub":
            return a[0] - a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "and":
            return a[0] & a[1]
        if op == "or":
            return a[0] | a[1]
        if op == "xor":
            return a[0] ^ a[1]
        if op == "andnot":
            return a[0] & ~a[1]
        if op in ("shl", "shr"):
            k = u.args[1]
            if k.op == "c":
                n = z3.BitVecVal(min(k.args[0], w), w) if k.args[0] < w else None
                if n is None:
                    if op == "shl" or not ty[1]:
                        return z3.BitVecVal(0, w)
                    n = z3.BitVecVal(w - 1, w)
                s = n
            else:
                kw = k.ty[0]
                s = a[1]
                if kw < w:
                    s = z3.ZeroExt(w - kw, s)
                elif kw > w:
                    big = z3.UGE(s, z3.BitVecVal(w, kw))
                    s = z3.If(big, z3.BitVecVal(w, w), z3.Extract(w - 1, 0, s)) if (1 << w) > w else None
            if op == "shl":
                return a[0] << s
            return a[0] >> s if ty[1] else z3.LShR(a[0], s)
        if op == "conv":
            sw = u.args[0].ty[0]
            if sw == w:
                return a[0]
            if sw > w:
                return z3.Extract(w - 1, 0, a[0])
            return z3.SignExt(w - sw, a[0]) if u.args[0].ty[1] else z3.ZeroExt(w - sw, a[0])
        if op == "eq":
            return a[0] == a[1]
        if op in ("lt", "le"):
            s = u.args[0].ty[1]
            if op == "lt":
                return a[0] < a[1] if s else z3.ULT(a[0], a[1])
            return a[0] <= a[1] if s else z3.ULE(a[0], a[1])
        if op == "bnot":
            return z3.Not(a[0])
        if op == "band":
            return z3.And(*a)
        if op == "bor":
            return z3.Or(*a)
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "mulhi":
            return z3.Extract(2 * w - 1, w, z3.ZeroExt(w, a[0]) * z3.ZeroExt(w, a[1]))
        if op == "carry":
            z = [z3.ZeroExt(2, x) for x in a]
            return z3.ZeroExt(w - 2, z3.Extract(w + 1, w, z[0] + z[1] + z[2]))
        if op == "borrow":
            z = [z3.ZeroExt(2, x) for x in a]
            return z3.ZeroExt(w - 1, z3.Extract(w, w, z[0] - z[1] - z[2]))
        if op == "quo":
            return a[0] / a[1] if ty[1] else z3.UDiv(a[0], a[1])
        if op == "rem":
            return z3.SRem(a[0], a[1]) if ty[1] else z3.URem(a[0], a[1])
        raise KeyError("bv: " + op)


def model_env(bv, m):
    env = {}
    for n, (u, x) in bv.vars.items():
        v = m.eval(x, model_completion=True)
        env[u] = z3.is_true(v) if u.ty == BOOL else tm.norm(v.as_long(), u.ty)
    return env


def prove_bv(goal, assume=(), timeout=60, kind="BV", bv=None):
    """goal, assume: boolean terms.  ("proved"|"failed"|"unknown", env)."""
    if goal is tm.TRUE:
        return "proved", None
    b = bv or BV()
    s = z3.SolverFor("QF_BV")
    for a in assume:
        s.add(b.t(a))
    s.add(z3.Not(b.t(goal)))
    st = check(s, kind, timeout)
    if st == z3.unsat:
        return "proved", None
    if st == z3.sat:
        return "failed", model_env(b, s.model())
    return "unknown", None


def prove_congruent(boxes, make, m, timeout=20, extra=None):
    """make(L) -> polynomial D that must be 0 modulo m.

    Wraps that stand in the way are refuted by range queries on the term-level
    encoding.  Returns (status, LIF, TLIA, model)."""
    from .lif import LIF
    from .tlia import TLIA, prove_range_cone
    X = TLIA(boxes)
    nowrap, tried = set(), set()
    for _ in range(6):
        L = LIF(boxes, X)
        L.nowrap = nowrap
        D = make(L)
        bad = {a for k, c in D.items() if c % m for a in k}
        st, mod = prove_zero_mod(L, D, m, extra(L) if extra else (), timeout=timeout if not bad else 1,
                                 flats=(True, False) if not bad else (True,))
        if st == "proved" or not bad:
            return st, L, X, mod
        progress = False
        cand = []
        for t, _, _ in L.wraps:
            if t.id in tried or t.id not in X.wrapq:
                continue
            if any(a in bad for k in L.wrapq[t.id] for a in k):
                cand.append(t)
        for t in cand[-6:]:
            tried.add(t.id)
            st, _ = prove_range_cone(X, X.wrapq[t.id], 0, 0, timeout=3)
            if st == "proved":
                nowrap.add(t.id)
                progress = True
        if not progress:
            st, mod = prove_zero_mod(L, D, m, extra(L) if extra else (), timeout=timeout)
            return st, L, X, mod
    return "unknown", L, X, None


def prove_poly_range(L, P, lo, hi, extra=(), timeout=20):
    """lo <= P <= hi under the quotient facts and extra = [(poly, lo, hi)]."""
    res = "unknown", None
    for flat in (True, False):
        ctx = LinCtx(L, flat)
        e = ctx.expr(P)
        ex = []
        for Q, a, b in extra:
            x = ctx.expr(Q)
            ex += [x >= a, x <= b]
        s = z3.Solver()
        s.add(ctx.facts)
        s.add(ex)
        s.add(z3.Or(e < lo, e > hi))
        st = check(s, "LIA-range", timeout)
        if st == z3.unsat:
            return "proved", None
        if st == z3.sat:
            res = "failed", (ctx, s.model())
    return res
