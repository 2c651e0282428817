"""Exact integer normal form of machine-integer terms ("LIF").

Every term is rewritten to an integer polynomial over atoms: inputs, floor
quotients floor(D / 2^k) and opaque terms, with an interval for its value.
The rewriting is exact: whenever an operation may wrap, the wrap is made explicit
as another floor quotient.  `facts` are linear facts about the quotients that go
to the solver.
"""
from . import terms as tm
from .terms import T, BOOL, rng


class Atom:
    __slots__ = ("id", "kind", "lo", "hi", "alts", "term", "name", "size")


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def pconst(c):
    return {(): c} if c else {}


def v2(x):
    return (x & -x).bit_length() - 1


class LIF:
    def __init__(self, boxes=None, tl=None):
        self.boxes = boxes or {}
        self.tl = tl         # TLIA over the same boxes: term intervals
        self.nowrap = set()  # ids of terms proved not to wrap
        self.wrapq = {}      # term id -> quotient polynomial
        self.atoms = []
        self.byterm = {}
        self.bykey = {}
        self.memo = {}
        self.wraps = []      # (term, interval) operations that may wrap
        self.opaque = []     # opaque terms
        self.bools = set()
        self._b = {}

    # ---- atoms --------------------------------------------------------------
    def _new(self, kind, lo, hi, term=None, name=None):
        a = Atom()
        a.id, a.kind, a.lo, a.hi, a.alts, a.term, a.name = len(self.atoms), kind, lo, hi, [], term, name
        self.atoms.append(a)
        return a

    def input_atom(self, t, kind="in"):
        a = self.byterm.get(t.id)
        if a is None:
            lo, hi = self.boxes.get(t, rng(t.ty))
            a = self._new(kind, lo, hi, t)
            self.byterm[t.id] = a
        return a

    def bool_atom(self, t):
        """0/1 atom for a boolean term; negations share the atom"""
        if t.op == "bnot":
            p = self.bool_poly(t.args[0])
            return padd(pconst(1), p, -1)
        a = self.byterm.get(t.id)
        if a is None:
            a = self._new("bool", 0, 1, t)
            self.byterm[t.id] = a
            self.bools.add(a.id)
        return {(a.id,): 1}

    def bool_poly(self, t):
        if t.op == "c":
            return pconst(1 if t.args[0] else 0)
        return self.bool_atom(t)

    def pmul(self, a, b):
        r = {}
        bools = self.bools
        for m, c in a.items():
            for n, d in b.items():
                k = m + n
                if len(m) and len(n):
                    k = tuple(sorted(k))
                    if bools:
                        k2 = []
                        for x in k:
                            if k2 and k2[-1] == x and x in bools:
                                continue
                            k2.append(x)
                        k = tuple(k2)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    # ---- intervals ----------------------------------------------------------
    def mono_iv(self, m):
        lo, hi = 1, 1
        i = 0
        while i < len(m):
            j = i
            while j < len(m) and m[j] == m[i]:
                j += 1
            a = self.atoms[m[i]]
            e = j - i
            if e == 1:
                l2, h2 = a.lo, a.hi
            else:
                c = [a.lo ** e, a.hi ** e] + ([0] if a.lo <= 0 <= a.hi else [])
                l2, h2 = min(c), max(c)
            c = (lo * l2, lo * h2, hi * l2, hi * h2)
            lo, hi = min(c), max(c)
            i = j
        return lo, hi

    def naive(self, P):
        lo = hi = 0
        for m, c in P.items():
            if not m:
                lo += c
                hi += c
                continue
            l, h = self.mono_iv(m)
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        return lo, hi

    def bound(self, P, depth=0):
        key = frozenset(P.items())
        r = self._b.get(key)
        if r is not None:
            return r
        lo, hi = self.naive(P)
        if depth == 0:
            self._budget = 60
        self._budget -= 1
        if depth < 40 and self._budget > 0:
            # residuals of floor quotients, newest atom first
            qs = sorted((m[0] for m in P if len(m) == 1 and self.atoms[m[0]].alts), reverse=True)
            for q in qs[:6]:
                c = P[(q,)]
                for (D, k) in self.atoms[q].alts:
                    if c % (1 << k):
                        # allow a rational multiple: scale P
                        continue
                    m = -(c >> k)
                    P2 = padd(P, D, -m)
                    P2 = padd(P2, {(q,): 1}, m << k)
                    if len(P2) >= len(P):
                        continue
                    l2, h2 = self.bound(P2, depth + 1)
                    r = (1 << k) - 1
                    if m > 0:
                        h2 += m * r
                    else:
                        l2 += m * r
                    lo, hi = max(lo, l2), min(hi, h2)
                if lo >= hi:
                    break
        self._b[key] = (lo, hi)
        return lo, hi

    # ---- floor --------------------------------------------------------------
    def floor(self, P, k, iv=None):
        """polynomial for floor(P / 2^k)"""
        if k == 0:
            return P
        M = 1 << k
        out, rest = {}, {}
        for m, c in P.items():
            if not m:
                q, r = c >> k, c & (M - 1)
                if q:
                    out[m] = q
                if r:
                    rest[m] = r
            elif c % M == 0:
                out[m] = c >> k
            elif abs(c) >= M:
                h = (c + (M >> 1)) >> k
                out[m] = h
                rest[m] = c - (h << k)
            else:
                rest[m] = c
        if not rest or (len(rest) == 1 and () in rest):
            return out
        if () in P:
            full = dict(rest)
            full.pop((), None)
            full[()] = P[()]
            lo, hi = self.bound(full)
            k2 = max(hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0)
            if k2 < k:      # floor(r / 2^k) is -1 or 0: the sign, whatever k
                out.pop((), None)
                return padd(out, self.floor(full, k2))
        # split off a low part that cannot reach the next aligned unit
        js = sorted({v2(c) for m, c in rest.items() if m}, reverse=True)
        for j in js:
            if j <= 0:
                continue
            j = min(j, k)
            lowp = {m: c for m, c in rest.items() if m and v2(c) < j}
            c0 = rest.get((), 0)
            low = dict(lowp)
            if c0 & ((1 << j) - 1):
                low[()] = c0 & ((1 << j) - 1)
            l, h = self.bound(low) if low else (0, 0)
            if l >= 0 and h < (1 << j):
                hi = {m: c >> j for m, c in rest.items() if m and v2(c) >= j}
                if c0 >> j:
                    hi[()] = c0 >> j
                if k == j:
                    return padd(out, hi)
                return padd(out, self.floor(hi, k - j))
        lo, hi = self.bound(rest)
        if lo >= -1 and hi <= 0:
            return padd(out, rest)
        k2 = max(hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0)
        if k2 < k:          # floor(r / 2^k) is -1 or 0: the sign, whatever k
            return padd(out, self.floor(rest, k2))
        lo, hi = lo >> k, hi >> k
        if lo == hi:
            return padd(out, pconst(lo))
        # flatten nested quotients
        F, kf = rest, k
        for _ in range(64):
            qs = [m[0] for m, c in F.items() if len(m) == 1 and c == 1 and self.atoms[m[0]].kind == "floor"]
            if not qs:
                break
            q = max(qs)
            D, m = self.atoms[q].alts[0]
            F = padd(F, {(q,): 1}, -1)
            F = padd(pscale(F, 1 << m), D)
            kf += m
            # re-pull multiples
            o2, r2 = {}, {}
            for mm, c in F.items():
                if not mm:
                    if c >> kf:
                        o2[mm] = c >> kf
                    if c & ((1 << kf) - 1):
                        r2[mm] = c & ((1 << kf) - 1)
                elif c % (1 << kf) == 0:
                    o2[mm] = c >> kf
                elif abs(c) >= (1 << kf):
                    h = (c + (1 << (kf - 1))) >> kf
                    o2[mm] = h
                    r2[mm] = c - (h << kf)
                else:
                    r2[mm] = c
            if o2:
                out = padd(out, o2)
                rest = padd(rest, o2, -(1 << k))
            F = r2
            if not F:
                return out
        key = (frozenset(F.items()), kf)
        a = self.bykey.get(key)
        if a is None:
            lo, hi = self.bound(rest)
            lo, hi = lo >> k, hi >> k
            l2, h2 = self.bound(F)
            lo, hi = max(lo, l2 >> kf), min(hi, h2 >> kf)
            if lo == hi:
                return padd(out, pconst(lo))
            a = self._new("floor", lo, hi)
            a.alts.append((F, kf))
            if kf != k:
                a.alts.append((rest, k))
            self.bykey[key] = a
        elif (rest, k) not in a.alts and len(a.alts) < 4:
            a.alts.append((rest, k))
            lo, hi = self.bound(rest)
            a.lo, a.hi = max(a.lo, lo >> k), min(a.hi, hi >> k)
        return padd(out, {(a.id,): 1})

    # ---- terms --------------------------------------------------------------
    def lif(self, t):
        """(poly, lo, hi)"""
        r = self.memo.get(t.id)
        if r is not None:
            return r
        for u in tm.subterms([t]):
            if u.id not in self.memo:
                if u.ty == BOOL:
                    continue
                r = self._lif(u)
                if self.tl is not None:
                    self.tl.form(u)
                    _, lo, hi = self.tl.memo[u.id]
                    r = (r[0], max(r[1], lo), min(r[2], hi))
                self.memo[u.id] = r
        return self.memo[t.id]

    def poly(self, t):
        return self.lif(t)[0]

    def fit(self, t, P, lo, hi):
        """wrap P into the range of t's type"""
        l2, h2 = self.bound(P)
        lo, hi = max(lo, l2), min(hi, h2)
        a, b = rng(t.ty)
        if a <= lo and hi <= b:
            return P, lo, hi
        if t.id in self.nowrap:
            return P, max(lo, a), min(hi, b)
        if self.tl is not None:
            self.tl.form(t)
            if t.id not in self.tl.wrapq:
                _, l2, h2 = self.tl.memo[t.id]
                return P, max(lo, l2), min(hi, h2)
        w = t.ty[0]
        self.wraps.append((t, lo, hi))
        q = self.floor(padd(P, pconst(-a)), w)
        self.wrapq[t.id] = q
        P2 = padd(P, q, -(1 << w))
        l3, h3 = self.bound(P2)
        return P2, max(a, l3), min(b, h3)

    def _lif(self, t):
        op = t.op
        if op == "c":
            c = int(t.args[0])
            return pconst(c), c, c
        if t in self.boxes or op in ("var", "limb"):
            a = self.input_atom(t)
            return {(a.id,): 1}, a.lo, a.hi
        A = [self.memo[x.id] if isinstance(x, T) and x.ty != BOOL else None for x in t.args]
        w = t.ty[0]
        if op == "add":
            return self.fit(t, padd(A[0][0], A[1][0]), A[0][1] + A[1][1], A[0][2] + A[1][2])
        if op == "sub":
            return self.fit(t, padd(A[0][0], A[1][0], -1), A[0][1] - A[1][2], A[0][2] - A[1][1])
        if op == "mul":
            c = [A[0][i] * A[1][j] for i in (1, 2) for j in (1, 2)]
            return self.fit(t, self.pmul(A[0][0], A[1][0]), min(c), max(c))
        if op == "shl" and t.args[1].op == "c":
            k = t.args[1].args[0]
            return self.fit(t, pscale(A[0][0], 1 << k), A[0][1] << k, A[0][2] << k)
        if op == "shr" and t.args[1].op == "c":
            k = t.args[1].args[0]
            return self.tight(self.floor(A[0][0], k), A[0][1] >> k, A[0][2] >> k)
        if op == "and":
            for x, y, ty in ((A[0], A[1], t), (A[1], A[0], t)):
                u = self.flagmul(x)
                if u is None:
                    continue
                K, P = u
                K &= (1 << w) - 1
                if not y[0] or (len(y[0]) == 1 and () in y[0]):
                    c = (y[0].get((), 0)) & K
                    c = tm.norm(c, t.ty)
                    return pscale(P, c), min(0, c), max(0, c)
                if K == (1 << w) - 1:
                    return self.pmul(P, y[0]), min(0, y[1]), max(0, y[2])
        if op == "and" and t.args[1].op == "c":
            return self.mask(t, A[0], t.args[1].args[0] & ((1 << w) - 1))
        if op in ("or", "xor"):
            if op == "xor" and t.args[1].op == "c":
                c = t.args[1].args[0]
                if tm.norm(c, (w, True)) == -1:
                    P = padd(pconst(-1 if t.ty[1] else (1 << w) - 1), A[0][0], -1)
                    return P, *sorted(((-1 if t.ty[1] else (1 << w) - 1) - A[0][1], (-1 if t.ty[1] else (1 << w) - 1) - A[0][2]))
                if c == 1 and 0 <= A[0][1] and A[0][2] <= 1:
                    return padd(pconst(1), A[0][0], -1), 1 - A[0][2], 1 - A[0][1]
            for x, y in ((A[0], A[1]), (A[1], A[0])):
                if y[1] >= 0 and x[0]:
                    al = min(v2(c) for c in x[0].values())
                    if y[2] < (1 << al):
                        return self.tight(padd(x[0], y[0]), x[1] + y[1], x[2] + y[2])
        if op == "conv":
            return self.fit(t, A[0][0], A[0][1], A[0][2])
        if op == "ite":
            c = t.args[0]
            b = self.bool_poly(c)
            P = padd(A[2][0], self.pmul(b, padd(A[1][0], A[2][0], -1)))
            return P, min(A[1][1], A[2][1]), max(A[1][2], A[2][2])
        if op == "mulhi":
            M = self.pmul(A[0][0], A[1][0])
            c = [A[0][i] * A[1][j] for i in (1, 2) for j in (1, 2)]
            return self.tight(self.floor(M, w), min(c) >> w, max(c) >> w)
        if op == "carry":
            S = padd(padd(A[0][0], A[1][0]), A[2][0])
            return self.tight(self.floor(S, w), (A[0][1] + A[1][1] + A[2][1]) >> w, (A[0][2] + A[1][2] + A[2][2]) >> w)
        if op == "borrow":
            S = padd(padd(A[0][0], A[1][0], -1), A[2][0], -1)
            lo, hi = (A[0][1] - A[1][2] - A[2][2]) >> w, (A[0][2] - A[1][1] - A[2][1]) >> w
            return self.tight(pscale(self.floor(S, w), -1), -hi, -lo)
        if op in ("quo", "rem") and t.args[1].op == "c" and A[0][1] >= 0:
            c = t.args[1].args[0]
            if c > 0 and c & (c - 1) == 0:
                k = c.bit_length() - 1
                q = self.floor(A[0][0], k)
                if op == "quo":
                    return self.tight(q, A[0][1] >> k, A[0][2] >> k)
                return self.tight(padd(A[0][0], q, -c), 0, min(c - 1, A[0][2]))
        a = self.input_atom(t, "opaque")
        if op == "and" and min(A[0][1], A[1][1]) >= 0:
            a.lo, a.hi = 0, min(A[0][2], A[1][2])
        elif op in ("or", "xor") and min(A[0][1], A[1][1]) >= 0:
            n = max(A[0][2].bit_length(), A[1][2].bit_length())
            a.lo, a.hi = 0, (1 << n) - 1
        self.opaque.append(t)
        return {(a.id,): 1}, a.lo, a.hi

    def flagmul(self, A):
        """(K, u) with A = K*u, u a 0/1 polynomial in one 0/1 atom, or None"""
        P = A[0]
        vs = [m for m in P if m]
        if len(vs) != 1 or len(vs[0]) != 1:
            return None
        at = self.atoms[vs[0][0]]
        c, c0 = P[vs[0]], P.get((), 0)
        if at.hi - at.lo != 1:
            return None
        a, b = c * at.lo + c0, c * at.hi + c0
        if a == 0:
            K, sgn = b, 1
        elif b == 0:
            K, sgn = a, -1
        else:
            return None
        if at.lo == 0:
            self.bools.add(at.id)
        u = {vs[0]: sgn}
        k = -sgn * (at.lo if sgn > 0 else at.hi)
        if k:
            u[()] = k
        return K, u

    def tight(self, P, lo, hi):
        l, h = self.bound(P)
        return P, max(l, lo), min(h, hi)

    def mask(self, t, A, c):
        w = t.ty[0]
        P, lo, hi = A
        out = {}
        b = 0
        mx = 0
        neg = False
        while c >> b:
            if not (c >> b) & 1:
                b += 1
                continue
            e = b
            while (c >> e) & 1:
                e += 1
            # run [b, e)
            q = self.floor(P, b)
            if e < w:
                q = padd(q, self.floor(P, e), -(1 << (e - b)))
                mx += ((1 << e) - (1 << b))
            else:
                if t.ty[1] and lo < 0:
                    neg = True
                mx += ((1 << e) - (1 << b))
            out = padd(out, pscale(q, 1 << b))
            b = e
        if neg:
            a, z = rng(t.ty)
            return self.tight(out, a, z)
        return self.tight(out, 0, min(mx, hi) if lo >= 0 else mx)

    # ---- solver side --------------------------------------------------------
    def atoms_of(self, polys):
        need, todo = set(), []
        for P in polys:
            for m in P:
                todo.extend(m)
        while todo:
            a = todo.pop()
            if a in need:
                continue
            need.add(a)
            for D, k in self.atoms[a].alts:
                for m in D:
                    todo.extend(m)
        return need
