"""Term-level linear integer encoding (for ranges).

Every sum in the code becomes an integer variable defined by a short linear equation
with the coefficients of the source; quotients by powers of two become integer
variables with their two defining inequalities; products of two non-constant values
are unconstrained variables within their interval.  The encoding over-approximates
(products only), so "unsat" is a proof.
"""
import z3
from . import terms as tm
from .terms import T, BOOL, rng
from .solve import check


def fadd(a, b, k=1):
    r = dict(a)
    for v, c in b.items():
        x = r.get(v, 0) + k * c
        if x:
            r[v] = x
        else:
            r.pop(v, None)
    return r


class TLIA:
    def __init__(self, boxes=None):
        self.boxes = boxes or {}
        self.iv = []          # bounds of variables
        self.defs = {}        # var -> ("eq", form) | ("floor", form, k)
        self.names = {}
        self.memo = {}
        self.qkey = {}
        self.wrapq = {}       # term id -> quotient form of the wrap
        self.opaq = []        # terms without an exact encoding

    def new(self, lo, hi, d=None):
        self.iv.append((lo, hi))
        v = len(self.iv)      # variables are 1.., 0 is the constant
        if d:
            self.defs[v] = d
        return v

    def naive(self, f):
        lo = hi = f.get(0, 0)
        for v, c in f.items():
            if v:
                l, h = self.iv[v - 1]
                if c > 0:
                    lo, hi = lo + c * l, hi + c * h
                else:
                    lo, hi = lo + c * h, hi + c * l
        return lo, hi

    def bound(self, f, depth=0):
        lo, hi = self.naive(f)
        if depth > 3:
            return lo, hi
        for v, c in f.items():
            d = self.defs.get(v) if v else None
            if d and d[0] == "floor" and c % (1 << d[2]) == 0:
                m = -(c >> d[2])
                g = fadd(f, d[1], -m)
                g = fadd(g, {v: 1}, m << d[2])
                if len(g) < len(f) or len(g) <= 2:
                    l, h = self.bound(g, depth + 1)
                    r = (1 << d[2]) - 1
                    if m > 0:
                        h += m * r
                    else:
                        l += m * r
                    lo, hi = max(lo, l), min(hi, h)
        return lo, hi

    def named(self, f, lo=None, hi=None):
        """a form with at most one variable equal to f"""
        vs = [v for v in f if v]
        l, h = self.bound(f)
        lo = l if lo is None else max(l, lo)
        hi = h if hi is None else min(h, hi)
        if lo == hi:
            return {0: lo} if lo else {}
        if len(vs) <= 1 and (not vs or abs(f[vs[0]]) & (abs(f[vs[0]]) - 1) == 0):
            if vs and len(f) == 1 and f[vs[0]] == 1:
                a, b = self.iv[vs[0] - 1]
                self.iv[vs[0] - 1] = (max(a, lo), min(b, hi))
                return f
            if (l, h) == (lo, hi):
                return f
        # name the non-constant part
        c0 = f.get(0, 0)
        g = {v: c for v, c in f.items() if v}
        key = frozenset(g.items())
        v = self.names.get(key)
        if v is None:
            v = self.new(lo - c0, hi - c0, ("eq", g))
            self.names[key] = v
        else:
            a, b = self.iv[v - 1]
            self.iv[v - 1] = (max(a, lo - c0), min(b, hi - c0))
        r = {v: 1}
        if c0:
            r[0] = c0
        return r

    def floor(self, f, k):
        if k == 0:
            return f
        lo, hi = self.bound(f)
        k2 = max(hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0)
        if k2 < k:
            k = k2
            if k == 0:
                return f
        out, rest = {}, {}
        for v, c in f.items():
            if v == 0:
                if c >> k:
                    out[0] = c >> k
                if c & ((1 << k) - 1):
                    rest[0] = c & ((1 << k) - 1)
            elif c % (1 << k) == 0:
                out[v] = c >> k
            elif abs(c) >= (1 << k):
                h = (c + (1 << (k - 1))) >> k
                out[v] = h
                rest[v] = c - (h << k)
            else:
                rest[v] = c
        if not [v for v in rest if v]:
            return out
        # common power of two
        j = min((c & -c).bit_length() - 1 for v, c in rest.items() if v)
        j = min(j, k)
        if j:
            r2 = {v: c >> j for v, c in rest.items()}   # constant: floor
            r2 = {v: c for v, c in r2.items() if c}
            return fadd(out, self.floor(r2, k - j))
        lo, hi = self.bound(rest)
        if lo >= -1 and hi <= 0:
            return fadd(out, rest)
        k2 = max(hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0)
        k = min(k, k2)
        if lo >> k == hi >> k:
            return fadd(out, {0: lo >> k} if lo >> k else {})
        key = (frozenset(rest.items()), k)
        q = self.qkey.get(key)
        if q is None:
            q = self.new(lo >> k, hi >> k, ("floor", rest, k))
            self.qkey[key] = q
        return fadd(out, {q: 1})

    def form(self, t):
        if t.id in self.memo:
            return self.memo[t.id][0]
        for u in tm.subterms([t]):
            if u.id not in self.memo and u.ty != BOOL:
                self.memo[u.id] = self._t(u)
        return self.memo[t.id][0]

    def fit(self, t, f):
        lo, hi = self.bound(f)
        a, b = rng(t.ty)
        if a <= lo and hi <= b:
            f = self.named(f)
            return (f,) + self.bound(f)
        vs = [v for v in f if v]
        if len(vs) == 1 and self.iv[vs[0] - 1][1] - self.iv[vs[0] - 1][0] == 1:
            # two-valued: the wrapped value is interpolated exactly
            p = self.iv[vs[0] - 1][0]
            f0, f1 = (tm.norm(f[vs[0]] * x + f.get(0, 0), t.ty) for x in (p, p + 1))
            g = {vs[0]: f1 - f0} if f1 != f0 else {}
            if f0 - (f1 - f0) * p:
                g[0] = f0 - (f1 - f0) * p
            return (g, min(f0, f1), max(f0, f1))
        f = self.named(f)
        q = self.floor(fadd(f, {0: -a}) if a else f, t.ty[0])
        self.wrapq[t.id] = q
        f = self.named(fadd(f, q, -(1 << t.ty[0])), a, b)
        return (f,) + self.bound(f)

    def opaque(self, t, lo, hi):
        v = self.new(lo, hi)
        return ({v: 1}, lo, hi)

    def _t(self, t):
        op = t.op
        if op == "c":
            c = int(t.args[0])
            return ({0: c} if c else {}, c, c)
        w = t.ty[0]
        if t in self.boxes or op in ("var", "limb"):
            lo, hi = self.boxes.get(t, rng(t.ty))
            return self.opaque(t, lo, hi)
        A = [self.memo[x.id] if isinstance(x, T) and x.ty != BOOL else None for x in t.args]
        if op == "add":
            return self.fit(t, fadd(A[0][0], A[1][0]))
        if op == "sub":
            return self.fit(t, fadd(A[0][0], A[1][0], -1))
        if op == "mul":
            for x, y in ((A[0], A[1]), (A[1], A[0])):
                if y[1] == y[2]:
                    return self.fit(t, {v: c * y[1] for v, c in x[0].items()} if y[1] else {})
            c = [A[0][i] * A[1][j] for i in (1, 2) for j in (1, 2)]
            self.opaq.append(t)
            return self.fit(t, self.opaque(t, min(c), max(c))[0])
        if op == "shl" and t.args[1].op == "c":
            return self.fit(t, {v: c << t.args[1].args[0] for v, c in A[0][0].items()})
        if op == "shr" and t.args[1].op == "c":
            k = t.args[1].args[0]
            f = self.named(self.floor(A[0][0], k), A[0][1] >> k, A[0][2] >> k)
            return (f,) + self.bound(f)
        if op in ("and", "or", "xor", "andnot"):
            for n, (x, y) in enumerate(((A[0], A[1]), (A[1], A[0]))):
                vs = [v for v in x[0] if v]
                if len(vs) != 1 or y[1] != y[2]:
                    continue
                a, b = self.iv[vs[0] - 1]
                if b - a != 1:
                    continue
                c, c0 = x[0][vs[0]], x[0].get(0, 0)
                m = (1 << w) - 1
                fs = []
                for e in (c * a + c0, c * b + c0):
                    p, q = (e & m, y[1] & m) if n == 0 else (y[1] & m, e & m)
                    r = p & q if op == "and" else p | q if op == "or" else p ^ q if op == "xor" else p & ~q
                    fs.append(tm.norm(r & m, t.ty))
                # two-valued operand and constant: linear interpolation is exact
                f0, f1 = fs
                k = f0 - (f1 - f0) * a
                f = {vs[0]: f1 - f0} if f1 != f0 else {}
                if k:
                    f[0] = k
                return (f, min(f0, f1), max(f0, f1))
        if op == "and" and t.args[1].op == "c":
            m = t.args[1].args[0] & ((1 << w) - 1)
            if m & (m + 1) == 0:
                k = m.bit_length()
                f = self.named(fadd(A[0][0], self.floor(A[0][0], k), -(1 << k)), 0, m)
                return (f,) + self.bound(f)
            runs, j = [], 0
            while m >> j:
                if (m >> j) & 1:
                    k = j
                    while (m >> k) & 1:
                        k += 1
                    runs.append((j, k))
                    j = k
                else:
                    j += 1
            if len(runs) <= 3 and (not t.ty[1] or not m >> (w - 1)):
                f = {}
                for j, k in runs:
                    g = self.floor(A[0][0], j)
                    g = self.named(fadd(g, self.floor(A[0][0], k), -(1 << (k - j))), 0, (1 << (k - j)) - 1)
                    f = fadd(f, g, 1 << j)
                f = self.named(f, 0, m)
                return (f,) + self.bound(f)
        if op in ("or", "xor"):
            for x, y in ((A[0], A[1]), (A[1], A[0])):
                if y[1] >= 0 and x[0]:
                    al = self.align(x[0])
                    if y[2] < (1 << al):
                        f = fadd(x[0], y[0])
                        f = self.named(f)
                        return (f,) + self.bound(f)
        if op == "conv":
            return self.fit(t, A[0][0])
        if op == "ite":
            lo, hi = min(A[1][1], A[2][1]), max(A[1][2], A[2][2])
            v = self.new(lo, hi, ("ite", t.args[0], A[1][0], A[2][0]))
            self.opaq.append(t) if not self.bform(t.args[0]) else None
            return ({v: 1}, lo, hi)
        if op == "carry":
            f = self.named(self.floor(fadd(fadd(A[0][0], A[1][0]), A[2][0]), w))
            return (f,) + self.bound(f)
        if op == "borrow":
            f = self.named(fadd({}, self.floor(fadd(fadd(A[0][0], A[1][0], -1), A[2][0], -1), w), -1))
            return (f,) + self.bound(f)
        self.opaq.append(t)
        if op == "mulhi":
            c = [A[0][i] * A[1][j] >> w for i in (1, 2) for j in (1, 2)]
            return self.opaque(t, min(c), max(c))
        lo, hi = rng(t.ty)
        if op == "and" and max(A[0][1], A[1][1]) >= 0:
            lo, hi = 0, min(a[2] for a in A if a[1] >= 0)
        elif op in ("or", "xor") and min(A[0][1], A[1][1]) >= 0:
            lo, hi = 0, (1 << max(A[0][2].bit_length(), A[1][2].bit_length())) - 1
        return self.opaque(t, lo, hi)

    def align(self, f, depth=0):
        """power of two dividing every value of f"""
        r = 200
        for v, c in f.items():
            a = (c & -c).bit_length() - 1
            d = self.defs.get(v)
            if v and d and d[0] == "eq" and depth < 8:
                a += self.align(d[1], depth + 1)
            r = min(r, a)
        return r

    # ---- solver -------------------------------------------------------------
    def facts(self, forms):
        need, todo, out, z = set(), [], [], {}
        for f in forms:
            todo.extend(v for v in f if v)
        while todo:
            v = todo.pop()
            if v in need:
                continue
            need.add(v)
            todo.extend(self.deps(v))
        for v in need:
            z[v] = z3.Int("y%d" % v)
        self.z = z
        for v in sorted(need):
            lo, hi = self.iv[v - 1]
            out += [z[v] >= lo, z[v] <= hi]
            d = self.defs.get(v)
            if d and d[0] == "eq":
                out.append(z[v] == self.zexpr(d[1]))
            elif d and d[0] == "ite":
                out.append(self.zite(v, d))
            elif d:
                e = self.zexpr(d[1])
                out += [z[v] * (1 << d[2]) <= e, e <= z[v] * (1 << d[2]) + ((1 << d[2]) - 1)]
        return out

    def deps(self, v):
        d = self.defs.get(v)
        if not d:
            return []
        if d[0] == "ite":
            return [x for f in (d[2], d[3]) + tuple(self.bdeps(d[1])) for x in f if x]
        return [x for x in d[1] if x]

    def bform(self, c):
        """are all comparisons inside the condition expressible (forms are built)?"""
        for u in tm.subterms([c]):
            if u.ty != BOOL and u.id not in self.memo:
                self.memo[u.id] = self._t(u)
        return True

    def bdeps(self, c):
        out, todo = [], [c]
        while todo:
            u = todo.pop()
            if u.op in ("eq", "lt", "le") and u.args[0].ty != BOOL:
                out += [self.form(x) for x in u.args]
            elif u.op in ("bnot", "band", "bor", "ite", "eq"):
                todo += list(u.args)
        return out

    def zbool(self, c):
        if c.op == "c":
            return z3.BoolVal(bool(c.args[0]))
        if c.op in ("eq", "lt", "le") and c.args[0].ty != BOOL:
            a, b = (self.zexpr(self.form(x)) for x in c.args)
            return a == b if c.op == "eq" else a < b if c.op == "lt" else a <= b
        if c.op == "bnot":
            return z3.Not(self.zbool(c.args[0]))
        if c.op in ("band", "bor", "eq", "ite"):
            a = [self.zbool(x) for x in c.args]
            return {"band": lambda: z3.And(*a), "bor": lambda: z3.Or(*a), "eq": lambda: a[0] == a[1],
                    "ite": lambda: z3.If(*a)}[c.op]()
        return z3.Bool("b%d" % c.id)

    def zite(self, v, d):
        return z3.If(self.zbool(d[1]), self.z[v] == self.zexpr(d[2]), self.z[v] == self.zexpr(d[3]))

    def zexpr(self, f):
        return z3.Sum([self.z[v] * c if v else z3.IntVal(c) for v, c in f.items()]) if f else z3.IntVal(0)

    def prove_range(self, f, lo, hi, timeout=20, learn=True):
        l, h = self.bound(f)
        s = z3.Solver()
        s.add(self.facts([f]))
        e = self.zexpr(f)
        s.add(z3.Or(e < lo, e > hi))
        r = check(s, "LIA-range", timeout)
        if r == z3.unsat:
            if learn:
                vs = [v for v in f if v]
                if len(vs) == 1 and f[vs[0]] == 1:
                    c = f.get(0, 0)
                    a, b = self.iv[vs[0] - 1]
                    self.iv[vs[0] - 1] = (max(a, lo - c), min(b, hi - c))
            return "proved", None
        return ("failed", s.model()) if r == z3.sat else ("unknown", None)


def prove_range_cone(X, f, lo, hi, timeout=10, ks=(40, 80, 160, 320)):
    """As prove_range, with the definitions of only the newest k variables (sound: fewer facts)."""
    for k in ks:
        # dependency distance
        need, level = [], {}
        todo = [v for v in f if v]
        import heapq
        h = [-v for v in todo]
        heapq.heapify(h)
        seen = set(todo)
        while h and len(need) < k:
            v = -heapq.heappop(h)
            need.append(v)
            for x in X.deps(v):
                if x not in seen:
                    seen.add(x)
                    heapq.heappush(h, -x)
        ns = set(need)
        z = {v: z3.Int("y%d" % v) for v in seen}
        X.z = z
        s = z3.Solver()
        for v in seen:
            l, u = X.iv[v - 1]
            s.add(z[v] >= l, z[v] <= u)
            d = X.defs.get(v)
            if v not in ns or not d:
                continue
            e = X.zexpr(d[1]) if d[0] != "ite" else None
            if d[0] == "eq":
                s.add(z[v] == e)
            elif d[0] == "ite":
                s.add(X.zite(v, d))
            else:
                s.add(z[v] * (1 << d[2]) <= e, e <= z[v] * (1 << d[2]) + ((1 << d[2]) - 1))
        e = X.zexpr(f)
        s.add(z3.Or(e < lo, e > hi))
        r = check(s, "LIA-range", timeout)
        if r == z3.unsat:
            return "proved", k
        if not h:
            return ("failed" if r == z3.sat else "unknown"), None
    return "unknown", None
