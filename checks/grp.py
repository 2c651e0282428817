"""Execution with curve points as integer multiples of a fixed point: the contracts of C08."""
import math
from .pts import *
from .c08 import OPS
from . import fev

DEBUG = False
COMPS = {"EP": 4, "P": 4, "CP": 4, "PP": 3, "NP": 3}


class NoPoint(Exception):
    pass


class Form:
    """an integer: constant + sum of coefficient * atom, atoms being machine-integer terms of small range"""
    __slots__ = ("c", "d")

    def __init__(self, c=0, d=None):
        self.c, self.d = c, d or {}

    def key(self):
        return (self.c, tuple(sorted((t.id, k) for t, k in self.d.items())))

    def __add__(self, o):
        d = dict(self.d)
        for t, k in o.d.items():
            x = d.get(t, 0) + k
            if x:
                d[t] = x
            else:
                d.pop(t, None)
        return Form(self.c + o.c, d)

    def scale(self, k):
        return Form(self.c * k, {t: x * k for t, x in self.d.items()}) if k else Form()

    def __sub__(self, o):
        return self + o.scale(-1)


class GRun(fev.FRun):
    """FRun with the point operations replaced by the group law"""

    def __init__(self, B, known=None, level=3, tmax=200):
        self.forms, self.fids = [], {}
        self.known = known or {}          # affine point -> multiple
        self.dm, self.rm, self.cuts = {}, {}, {}
        self.queries = 0
        self.guard, self.lits, self.cn, self.rec = (), {}, {}, None
        self.um, self.sbv, self.solver = {}, solve.BV(), None
        fev.FRun.__init__(self, B, level)
        self.ex.deadline = time.time() + tmax

    # ---- forms <-> components -------------------------------------------------
    def comp(self, kind, F):
        kind = "EP" if kind == "P" else kind
        k = F.key()
        i = self.fids.get(k)
        if i is None:
            i = self.fids[k] = len(self.forms)
            self.forms.append(F)
        return tuple(tm.mk("gp", (i, kind, j), FTY) for j in range(COMPS[kind]))

    def rangeof(self, t):
        r = self.rm.get(t.id)
        if r is None:
            if t.op == "c":
                r = (t.args[0], t.args[0])
            elif t.op == "ite":
                a, b = self.rangeof(t.args[1]), self.rangeof(t.args[2])
                r = (min(a[0], b[0]), max(a[1], b[1]))
            elif t.op in ("add", "sub"):
                a, b = self.rangeof(t.args[0]), self.rangeof(t.args[1])
                r = (a[0] + b[0], a[1] + b[1]) if t.op == "add" else (a[0] - b[1], a[1] - b[0])
            elif t.op == "mul" and t.args[1].op == "c":
                a, k = self.rangeof(t.args[0]), t.args[1].args[0]
                r = (min(a[0] * k, a[1] * k), max(a[0] * k, a[1] * k))
            elif t.op == "conv" and t.args[0].ty[0] < t.ty[0]:
                r = self.rangeof(t.args[0])
            elif t.ty[0] <= 16:
                r = tm.rng(t.ty)
            else:
                raise Unsupported("multiple of unknown range")
            self.rm[t.id] = r
        return r

    def small(self, F, g):
        """the form divided by g as a 64-bit term"""
        t = tm.const(F.c // g, I64)
        lo = hi = F.c // g
        if abs(F.c // g) > 2**40:
            raise Unsupported("conditional multiple too large")
        for a, k in sorted(F.d.items(), key=lambda x: x[0].id):
            k //= g
            r = self.rangeof(a)
            if abs(k) > 2**40 or max(abs(r[0]), abs(r[1])) * abs(k) > 2**40:
                raise Unsupported("conditional multiple too large")
            x = a if k == 1 else tm.binop("mul", a, tm.const(k, I64))
            t = x if t.op == "c" and t.args[0] == 0 else tm.binop("add", t, x)
        self.rangeof(t)
        return t

    def literals(self, c):
        """what c together with the path condition says about single conditions (unit propagation)"""
        k = (c.id, tuple(x.id for x in self.guard))
        env = self.lits.get(k)
        if env is not None:
            return env
        env, todo, rest = {}, [c] + list(self.guard), []
        while todo:
            l = todo.pop()
            if l.op == "band":
                todo.extend(l.args)
            elif l.op == "bnot":
                x = l.args[0]
                if x not in env:
                    env[x] = False
                    if x.op == "bor":
                        todo.extend(tm.bnot(y) for y in x.args)
                    elif x.op == "band":
                        rest.append(tm.bor(*[tm.bnot(y) for y in x.args]))
            elif l is not TRUE and l is not FALSE and env.get(l) is not True:
                env[l] = True
                if l.op == "eq" and l.args[0].op == "var" and l.args[1].op == "c":
                    env[l.args[0]] = l.args[1].args[0]
                if l.op == "bor":
                    rest.append(l)
            if not todo and rest:
                keep = []
                for b in rest:
                    e2 = {x: v for x, v in env.items() if x is not b}
                    n = tm.subst([b], e2)[0]
                    if n is TRUE:
                        continue
                    if n.op != "bor":
                        todo.append(n)
                    else:
                        keep.append(n)
                rest = keep
        self.lits[k] = env
        return env

    def restrict(self, F, c):
        """F where the atoms decided by the condition c are simplified"""
        ts = list(F.d)
        if not ts:
            return F
        env = self.literals(c)
        out = Form(F.c)
        for t, n in zip(ts, tm.subst(ts, env)):
            out = out + (Form(n.args[0] * F.d[t]) if n.op == "c" else Form(0, {n: F.d[t]}))
        return out

    def gite(self, c, F, H):
        if F.key() == H.key():
            return F
        nc = tm.bnot(c)
        com = Form(F.c if F.c == H.c else 0, {t: k for t, k in F.d.items() if H.d.get(t) == k})
        a, b = F - com, H - com
        # one side may be the special case of the other
        if self.restrict(b, c).key() == self.restrict(a, c).key():
            return H
        if self.restrict(a, nc).key() == self.restrict(b, nc).key():
            return F
        if F.c == H.c:
            U = Form(a.c, {**b.d, **a.d})
            if self.restrict(U, c).key() == self.restrict(a, c).key() and self.restrict(U, nc).key() == self.restrict(b, nc).key():
                return com + U
        g = 0
        for x in (a, b):
            for k in [x.c] + list(x.d.values()):
                g = math.gcd(g, k)
        try:
            t = tm.ite(c, self.small(a, g), self.small(b, g))
        except Unsupported:
            if self.implied(c, F, H):
                return H
            if self.implied(nc, H, F):
                return F
            if DEBUG:
                print("gite", tm.show(c, 4)[:300], "\n F", [(k.bit_length(), tm.show(t, 3)[:80]) for t, k in a.d.items()], a.c, "\n H", [(k.bit_length(), tm.show(t, 3)[:80]) for t, k in b.d.items()], b.c)
            raise
        return com + (Form(t.args[0] * g) if t.op == "c" else Form(0, {t: g}))

    def implied(self, c, F, H):
        """c implies that the two forms agree, coefficient by coefficient (bit-vector query)"""
        d = F - H
        if d.c:
            return False
        self.queries += 1
        for t in d.d:
            if solve.prove_bv(tm.cmp("eq", t, tm.const(0, t.ty)), [c], timeout=10)[0] != "proved":
                return False
        return True

    def decode(self, kind, v):
        """the form of a representation, and the condition under which it is no point"""
        kind = "EP" if kind == "P" else kind
        k = (kind, tuple(t.id for t in v), tuple(x.id for x in self.guard) if any(t.op != "gp" for t in v) else None)
        r = self.dm.get(k)
        if r is None:
            try:
                r = self._decode(kind, v)
            except NoPoint as e:
                r = (None, TRUE, str(e))
            self.dm[k] = r
        return r

    def _decode(self, kind, v):
        for t in v:
            if t.op in ("fite", "fneg") and any(u.op == "fite" for u in (t, t.args[0])):
                u = t if t.op == "fite" else t.args[0]
                c = u.args[0]
                g = self.guard
                try:
                    self.guard = g + (c,)
                    F, b1, m1 = self.decode(kind, tuple(assume(x, c, 1) for x in v))
                    self.guard = g + (tm.bnot(c),)
                    H, b2, m2 = self.decode(kind, tuple(assume(x, c, 0) for x in v))
                finally:
                    self.guard = g
                G = H if F is None else F if H is None else self.gite(c, F, H)
                return G, tm.bite(c, b1, b2), m1 or m2
        neg = [t.op == "fneg" for t in v]
        w = [t.args[0] if n else t for t, n in zip(v, neg)]
        if all(t.op == "gp" and t.args[1] == kind and t.args[0] == w[0].args[0] for t in w):
            F = self.forms[w[0].args[0]]
            idx = [t.args[2] for t in w]
            if idx == list(range(len(w))):
                if not any(neg):
                    return F, FALSE, None
                if kind in ("EP", "PP", "CP"):
                    # -(X : Y : Z : T): X and T change their sign (a CP: X or Z)
                    if neg[0] and not neg[1] and not neg[2] and (kind != "EP" or neg[3]) and (kind != "CP" or not neg[3]):
                        return F.scale(-1), FALSE, None
                    if kind == "CP" and neg[2] and not neg[0] and not neg[1] and not neg[3]:
                        return F.scale(-1), FALSE, None
            if kind == "NP" and idx == [1, 0, 2] and neg == [False, False, True]:
                return F.scale(-1), FALSE, None
            raise NoPoint("unknown combination of coordinates")
        if all(t.op == "fc" for t in v):
            P = affine(kind, [t.args[0] for t in v])
            if P is None:
                raise NoPoint("constant that is no point")
            if P == (0, 1):
                return Form(), FALSE, None
            if P in self.known:
                return Form(self.known[P]), FALSE, None
            if ref.negp(P) in self.known:
                return Form(-self.known[ref.negp(P)]), FALSE, None
            raise NoPoint("constant point that is no known multiple")
        raise NoPoint("coordinates that are no point")

    def gget(self, st, kind, p):
        v = self.vals(st, p)
        self.guard = st.guard
        F, bad, why = self.under(st, kind, v)
        if F is None:
            raise Unsupported(why)
        self.ex.oblige(st, tm.bnot(bad), "value that is no point")
        return self.canon(F) if self.rec is not None and self.rec.vars else F

    def canon(self, F):
        """atoms that are, on this path, just a digit"""
        out = Form(F.c)
        for t, k in F.d.items():
            out = out + Form(0, {self.canon1(t): k})
        return out

    def canon1(self, t):
        if t.op == "conv" and t.args[0].op == "var":
            return t
        k0 = ("sup", t.id)
        if k0 not in self.cn:
            vs = [u for u in tm.subterms([t]) if u.op == "var"]
            self.cn[k0] = vs[0] if len(vs) == 1 and vs[0] in self.rec.vset else None
        x = self.cn[k0]
        if x is None:
            return t
        lits = []
        for c, v in self.literals(TRUE).items():
            if c.ty == BOOL and c.op != "bor" and x in c.args:
                lits.append(c if v else tm.bnot(c))
        k = (t.id, tuple(sorted(l.id for l in lits)))
        if k not in self.cn:
            self.queries += 1
            y = tm.conv(x, t.ty)
            self.cn[k] = y if solve.prove_bv(tm.cmp("eq", t, y), lits + [digit_range(x)], timeout=10)[0] == "proved" else t
        return self.cn[k]

    def under(self, st, kind, v):
        """decode, with the alternatives excluded by the path condition removed"""
        if not st.guard or all(t.op == "gp" for t in v):
            return self.decode(kind, v)
        g = st.g()
        cs = []
        for u in tm.subterms(list(v)):
            if u.op == "fite" and u.args[0] not in cs:
                cs.append(u.args[0])
        for c in cs:
            r = self.ex.assume(st, c)
            if r is not None:
                v = tuple(assume(x, c, r) for x in v)
        n = 0
        while True:
            try:
                return self.decode(kind, v)
            except Unsupported:
                pass
            # ask the solver about the outermost condition not decided yet
            for t in v:
                while t.op == "fneg":
                    t = t.args[0]
                if t.op == "fite":
                    break
            else:
                return self.decode(kind, v)
            c = t.args[0]
            r = self.decided(g, c)
            n += 1
            if r is None or n > 20:
                return self.decode(kind, v)
            v = tuple(assume(x, c, r) for x in v)

    def decided(self, g, c):
        k = (g.id, c.id)
        if k not in self.um:
            r = None
            b = self.sbv
            if self.solver is None:
                self.solver = z3.SolverFor("QF_BV")
            s = self.solver
            for val in (True, False):
                self.queries += 1
                s.push()
                s.add(b.t(g), b.t(tm.bnot(c) if val else c))
                q = solve.check(s, "BV-path", 5)
                s.pop()
                if q == z3.unsat:
                    r = val
                    break
            self.um[k] = r
        return self.um[k]

    def gput(self, st, kind, p, F):
        self.ex.store(st, p, self.struct(*self.comp(kind, F)))

    def gval(self, kind, F):
        return self.struct(*self.comp(kind, F))

    def hooks(self):
        H = fev.FRun.hooks(self)

        def condset(ex, st, args, ins):
            self.used.add(FE("ConditionalSet"))
            c = self.bit(st, args[2], ins)
            a, b = self.get(st, args[0]), self.get(st, args[1])
            self.put(st, args[0], fev.fite(c, b, a))
            return None
        H[FE("ConditionalSet")] = condset

        def mk(kind, m, kinds, op):
            n = TN(kind, m)

            def h(ex, st, args, ins):
                xs = [self.gget(st, k, a) for k, a in zip(kinds, args[1:])]
                if op == "add":
                    F = xs[0] + xs[1]
                elif op == "sub":
                    F = xs[0] - xs[1]
                elif op == "dbl":
                    F = xs[0].scale(2)
                elif op == "neg":
                    F = xs[0].scale(-1)
                elif op == "id":
                    F = xs[0]
                else:
                    F = Form()
                self.used.add(n)
                self.gput(st, kind, args[0], F)
                return args[0]
            return n, h
        for (kind, m), (kinds, op) in OPS.items():
            if kind == "P" or (isinstance(op, tuple) and op != (0, 1)):
                continue
            n, h = mk(kind, m, kinds, op)
            if n in self.B.p.funcs:
                H[n] = h
        for kind in ("EP", "NP"):
            def cs(ex, st, args, ins, kind=kind):
                self.used.add(TN(kind, "ConditionalSet"))
                c = self.bit(st, args[2], ins)
                self.guard = st.guard
                F = self.gite(c, self.gget(st, kind, args[1]), self.gget(st, kind, args[0]))
                self.gput(st, kind, args[0], F)
                return args[0]
            n = TN(kind, "ConditionalSet")
            if n in self.B.p.funcs:
                H[n] = cs
        return H

    def bit(self, st, t, ins):
        if t.op == "c":
            if t.args[0] not in (0, 1):
                self.ex.oblige(st, FALSE, "ConditionalSet flag not 0 or 1", ins)
            return tm.boolc(t.args[0] == 1)
        one = tm.cmp("eq", t, tm.const(1, t.ty))
        self.ex.oblige(st, tm.bor(one, tm.cmp("eq", t, tm.const(0, t.ty))), "ConditionalSet flag not 0 or 1", ins)
        return one


def assume(x, c, v):
    if x.op == "fite" and x.args[0] is c:
        return x.args[1] if v else x.args[2]
    if x.op == "fneg":
        y = assume(x.args[0], c, v)
        return fev.ffneg(y) if y is not x.args[0] else x
    if x.op == "fite":
        a, b = assume(x.args[1], c, v), assume(x.args[2], c, v)
        return fev.fite(x.args[0], a, b)
    return x


def affine(kind, v):
    """affine point of constant coordinates, None if invalid"""
    p = ref.p
    if kind in ("EP", "PP"):
        X, Y, Z = v[:3]
        if not Z % p:
            return None
        z = ref.inv(Z)
        P = (X * z % p, Y * z % p)
        if kind == "EP" and (P[0] * P[1] - v[3] * z) % p:
            return None
    elif kind == "CP":
        if not v[2] % p or not v[3] % p:
            return None
        P = (v[0] * ref.inv(v[2]) % p, v[1] * ref.inv(v[3]) % p)
    else:
        h = ref.inv(2)
        y, x = (v[0] + v[1]) * h % p, (v[0] - v[1]) * h % p
        if (v[2] - 2 * ref.d * x * y) % p:
            return None
        P = (x, y)
    return P if ref.on_curve(P) else None


# ---- the solver side: form == s -----------------------------------------------

def bits_of(limbs, w, lo, n):
    """bits lo..lo+n-1 of the number with the given limbs as a 32-bit term"""
    r = tm.const(0, I32)
    for k in range(n):
        b = lo + k
        if b // w >= len(limbs):
            break
        x = tm.binop("and", tm.shift("shr", limbs[b // w], tm.const(b % w, U32)), tm.const(1, limbs[0].ty))
        r = tm.binop("or", r, tm.shift("shl", tm.conv(x, I32), tm.const(k, U32)))
    return r


def digit_range(z):
    """zero or odd, at most 15 in absolute value (shown for every digit at the end)"""
    o = tm.cmp("eq", tm.binop("and", z, tm.const(1, z.ty)), tm.const(1, z.ty))
    return tm.band(tm.cmp("le", tm.const(-15, z.ty), z), tm.cmp("le", z, tm.const(15, z.ty)), tm.bor(tm.cmp("eq", z, tm.const(0, z.ty)), o))


class Recoding:
    """Induction over a loop that recodes a number s into digits d_0, d_1, ... (sum 2^i d_i = s) from the low end, one or several positions at a time.

    When the loop header is reached with position k, the paths under way stand at positions k+j with their pending carries.  The invariant is that exactly one of them
    is taken and that, on it, what the digits below k lack of the low k bits of s is made up by the carry: delta_k = 2^j carry - (bits k..k+j-1 of s), where
    delta_k = (s mod 2^k - sum of the digits below k) / 2^k is an integer.  Every step is decided by the solver from the previous one; path conditions, carries and
    delta are then replaced by fresh variables that satisfy the invariant."""

    def __init__(self, limbs, w, assume, nbits=256):
        self.limbs, self.w, self.nbits = limbs, w, nbits
        self.facts = list(assume)
        self.local = list(assume)
        self.k = None
        self.off = False
        self.n = 0
        self.why = ""
        self.vars, self.vset = None, set()
        self.delta, self.at, self.digit = {0: tm.const(0, I32)}, {0: list(assume)}, {}

    def digits(self, st):
        for o, v in st.mem.items():
            if isinstance(v, tuple) and 250 <= len(v) <= 300 and all(isinstance(x, T) and x.ty == I8 for x in v):
                return o
        return None

    def fail(self, why):
        self.off = True
        self.why = why

    def __call__(self, ex, f, b, st, env, pending):
        if self.off or not ex.predicate:
            return
        if self.k is not None and f["name"] != self.fn:
            # the recoding is over: from here on the digits are variables
            if self.vars is None and self.k >= self.nbits:
                self.vars = {}
                new = []
                for i, t in enumerate(st.mem[self.obj]):
                    if t.op == "c" or i not in self.digit or t is not self.digit[i]:
                        new.append(t)
                    else:
                        x = tm.var("digit%d" % i, t.ty)
                        self.vars[i] = x
                        self.vset.add(x)
                        new.append(x)
                for s2 in [st] + [x for x, _ in pending.values()]:
                    s2.mem[self.obj] = tuple(new)
            return
        phis = [x for x in f["blocks"][b]["i"] if x["op"] == "phi"]
        cnt = [x["r"] for x in phis if x["r"] in f["phifam"]]
        oth = [x["r"] for x in phis if x["r"] not in f["phifam"] and ex.p.intty(x["t"]) not in (None, BOOL)]
        if len(cnt) != 1 or len(oth) != 1 or not tm.isc(env[cnt[0]]):
            return
        o = self.digits(st)
        if o is None:
            return
        k = tm.cv(env[cnt[0]])
        if self.k is None:
            if k != 0 or pending or st.guard:
                return
            self.fn = f["name"]
            self.k, self.d = 0, tm.const(0, I32)
            self.obj = o
            self.phi = oth[0]
        if f["name"] != self.fn or oth[0] != self.phi:
            return
        if k == 0 or k > self.nbits:
            return
        sts = [(k, st, env)]
        for (key, bb), (s2, e2) in pending.items():
            if bb != b:
                return self.fail("other paths pending")
            sts.append((tm.cv(e2[cnt[0]]), s2, e2))
        if k != self.k + 1:
            return self.fail("step from %d to %d" % (self.k, k))
        dig = st.mem[o][k - 1]
        e = tm.binop("sub", tm.binop("add", self.d, bits_of(self.limbs, self.w, k - 1, 1)), tm.conv(dig, I32))
        d = tm.shift("shr", e, tm.const(1, U32))
        gs, cs = [s2.g() for _, s2, _ in sts], [e2[self.phi] for _, _, e2 in sts]

        def inv(d, gs, cs):
            out = [tm.bor(*gs)]
            for i in range(len(gs)):
                for j in range(i):
                    out.append(tm.bnot(tm.band(gs[i], gs[j])))
            for (p, _, _), g, c in zip(sts, gs, cs):
                j = p - k
                if j > 12:
                    return None
                c32 = tm.conv(c, I32)
                rel = tm.cmp("eq", d, tm.binop("sub", tm.shift("shl", c32, tm.const(j, U32)), bits_of(self.limbs, self.w, k, j)))
                out.append(tm.bor(tm.bnot(g), tm.band(rel, tm.cmp("le", tm.const(0, c.ty), c), tm.cmp("le", c, tm.const(1, c.ty)))))
            return out
        goals = inv(d, gs, cs)
        if goals is None:
            return self.fail("distance")
        goals.append(tm.cmp("eq", tm.binop("and", e, tm.const(1, I32)), tm.const(0, I32)))
        self.n += 1
        r, _ = solve.prove_bv(tm.band(*goals), self.local, timeout=20, kind="BV-induction")
        if r != "proved":
            return self.fail("induction step at %d: %s" % (k, r))
        zero = []
        if k >= 245:
            zero = [i for i, (g, c) in enumerate(zip(gs, cs))
                    if solve.prove_bv(tm.bor(tm.bnot(g), tm.cmp("eq", c, tm.const(0, c.ty))), self.local, timeout=20, kind="BV-induction")[0] == "proved"]
        nd = tm.var("delta%d" % k, I32)
        ng = [tm.var("at%d_%d" % (k, p), BOOL) for p, _, _ in sts]
        nc = [tm.var("carry%d_%d" % (k, p), c.ty) for (p, _, _), c in zip(sts, cs)]
        self.local = inv(nd, ng, nc) + [tm.bor(tm.bnot(ng[i]), tm.cmp("eq", nc[i], tm.const(0, nc[i].ty))) for i in zero] + self.facts
        self.at[k] = self.local
        self.digit[k - 1] = dig
        for (p, s2, e2), g, c in zip(sts, ng, nc):
            s2.guard = (g,)
            e2[self.phi] = c
        self.k, self.d = k, nd
        self.delta[k] = nd


def dominator(t):
    """the subterm nearest to t (not t itself, no constant) through which all its dependence on the inputs goes"""
    order = tm.subterms([t])
    dep, par = set(), {}
    for u in order:
        if u.op in ("var", "hash", "uf", "fz", "fsg", "fsq", "fby") or any(isinstance(x, T) and x.id in dep for x in u.args):
            dep.add(u.id)
    # immediate dominators by intersecting the dominators of all users, from the root down
    doms = {t.id: (t.id,)}
    byid = {u.id: u for u in order}
    users = {}
    for u in order:
        for x in u.args:
            if isinstance(x, T):
                users.setdefault(x.id, []).append(u.id)
    leaves = []
    for u in reversed(order):
        if u.id not in dep:
            continue
        if u is not t:
            us = [doms[x] for x in users[u.id] if x in doms]
            pre = us[0]
            for d in us[1:]:
                n = 0
                while n < len(pre) and n < len(d) and pre[n] == d[n]:
                    n += 1
                pre = pre[:n]
            doms[u.id] = pre + (u.id,)
        if not any(isinstance(x, T) and x.id in dep for x in u.args):
            leaves.append(doms[u.id])
    if not leaves:
        return None
    pre = leaves[0]
    for d in leaves[1:]:
        n = 0
        while n < len(pre) and n < len(d) and pre[n] == d[n]:
            n += 1
        pre = pre[:n]
    out = [byid[i] for i in pre[1:]]
    return out


def cut(t, lo, hi, memo):
    """a subterm u with: lo <= u <= hi implies t == u (shown by the solver for arbitrary u); None if there is none"""
    for u in (dominator(t) or [])[:6]:
        if u.ty == BOOL or u.ty[0] > 32 or not u.ty[1] and lo < 0:
            continue
        x = tm.var("cut", u.ty)
        g = tm.subst([t], {u: x})[0]
        k = (g.id, lo, hi)
        if k not in memo:
            l, h = max(lo, tm.rng(u.ty)[0]), min(hi, tm.rng(u.ty)[1])
            memo[k] = solve.prove_bv(tm.cmp("eq", g, tm.conv(x, t.ty)), [tm.cmp("le", tm.const(l, u.ty), x), tm.cmp("le", x, tm.const(h, u.ty))], timeout=10)[0]
        if memo[k] == "proved":
            return u
    return None


class Chain:
    """shows form == number of the limbs by a carry chain: at every position the difference so far must be divisible, and vanish at the end"""

    def __init__(self, R, F, limbs, w, nbits, assume, timeout=60, rec=None):
        self.rec = rec if rec is not None and rec.k and not rec.off else None
        self.R, self.F, self.limbs, self.w, self.nbits = R, F, limbs, w, nbits
        self.bv = solve.BV()
        self.s = z3.SolverFor("QF_BV")
        self.timeout = timeout
        for a in assume:
            self.s.add(self.bv.t(a))
        self.n = 0
        self.ranges = {}

    def ask(self, goal):
        """goal: z3 boolean; asserted when shown"""
        self.n += 1
        self.s.push()
        self.s.add(z3.Not(goal))
        r = solve.check(self.s, "BV", self.timeout)
        if r == z3.sat:
            self.model = solve.model_env(self.bv, self.s.model())
        self.s.pop()
        if r == z3.unsat:
            self.s.add(goal)
        return r

    def run(self):
        """None if shown, otherwise ("failed", env) or ("unknown", None)"""
        F, R = self.F, self.R
        groups = {}
        for t, k in F.d.items():
            v = (k & -k).bit_length() - 1
            groups.setdefault(v, []).append((t, k >> v))
        if F.c:
            v = (F.c & -F.c).bit_length() - 1
            if abs(F.c >> v) > 2**20:
                return "unknown", None
            groups.setdefault(v, []).append((tm.const(1, I64), F.c >> v))
        if self.rec is not None:
            return self.run_rec(groups)
        pos = sorted(set(groups) | {0})
        dlo = dhi = 0
        # the carry is a fresh variable defined by the previous step
        d = z3.BitVecVal(0, 32)
        for j, v in enumerate(pos):
            nxt = pos[j + 1] if j + 1 < len(pos) else None
            m = nxt - v if nxt is not None else max(self.nbits - v, 1)
            if m > 20:
                return "unknown", None
            b = self.bv.t(bits_of(self.limbs, self.w, v, m))
            alo = ahi = 0
            a = z3.BitVecVal(0, 32)
            for t, k in groups.get(v, []):
                lo, hi = R.rangeof(t)
                if max(abs(lo), abs(hi)) * abs(k) > 2**20:
                    return "unknown", None
                alo, ahi = alo + min(lo * k, hi * k), ahi + max(lo * k, hi * k)
                u = cut(t, lo, hi, R.cuts) if t.op != "c" else None
                if u is not None:
                    rg = tm.band(tm.cmp("le", tm.const(lo, u.ty), u), tm.cmp("le", u, tm.const(hi, u.ty)))
                    if self.ask(self.bv.t(rg)) == z3.unsat:
                        t = u
                        self.ranges[u] = (lo, hi)
                a = a + self.bv.t(tm.conv(t, I32)) * z3.BitVecVal(k, 32)
            e = d + b - a
            elo, ehi = dlo - ahi, dhi + (1 << m) - 1 - alo
            if max(abs(elo), abs(ehi)) > 2**28:
                return "unknown", None
            if nxt is None:
                r = self.ask(e == 0)
            else:
                r = self.ask(z3.Extract(m - 1, 0, e) == 0)
            if r != z3.unsat:
                return ("failed", self.model) if r == z3.sat else ("unknown", None)
            if nxt is None:
                return None
            self.n += 1
            nd = z3.BitVec("carry%d" % v, 32)
            self.s.add(nd == e >> m)
            d, dlo, dhi = nd, elo >> m, ehi >> m
        return "unknown", None

    def run_rec(self, groups):
        """the digits are those of a recoding shown by induction: the form has to be their sum"""
        rec, R = self.rec, self.R
        end = rec.k
        if end < self.nbits or any(v >= end for v in groups):
            return "unknown", None
        for v in range(end):
            dig, facts = rec.digit[v], rec.at[v]
            g = groups.get(v, [])
            self.n += 1
            x = (rec.vars or {}).get(v)
            if x is not None:
                # what the later execution assumed about the digit
                st = solve.prove_bv(digit_range(dig), facts, timeout=20)[0]
                if st == "proved" and not (len(g) == 1 and g[0][1] == 1 and g[0][0] is tm.conv(x, g[0][0].ty)):
                    t = g[0][0] if len(g) == 1 and g[0][1] == 1 else tm.const(0, I64) if not g else None
                    if t is None:
                        return "unknown", None
                    st = solve.prove_bv(tm.cmp("eq", t, tm.conv(x, t.ty)), [digit_range(x)], timeout=20)[0]
            elif not g:
                st = solve.prove_bv(tm.cmp("eq", dig, tm.const(0, dig.ty)), facts, timeout=20)[0]
            else:
                return "unknown", None
            if st != "proved":
                self.where = v
                return "unknown", None
        self.n += 1
        d = rec.delta[end]
        if solve.prove_bv(tm.cmp("eq", d, tm.const(0, d.ty)), rec.at[end], timeout=20)[0] != "proved":
            self.where = end
            return "unknown", None
        return None
