"""Execution with field elements as abstract values of GF(2^255-19)."""
from .fields import *
from symgo import ff
from symgo.ff import fc, fv, fadd as ffadd, fsub as ffsub, fmul as ffmul, fneg as ffneg, fite, fz, fsg, fsq, FTY, ZERO, ONE

FSPEC = {"add": ffadd, "sub": ffsub, "rsub": lambda a, b: ffsub(b, a), "mul": ffmul, "neg": ffneg, "sqr": lambda a: ffmul(a, a),
         "dsqr": lambda a: ffmul(fc(2), ffmul(a, a)), "dbl": lambda a: ffadd(a, a), "id": lambda a: a,
         "negdbl": lambda a: ffneg(ffadd(a, a)), "quad": lambda a: ffmul(fc(4), a)}


def fbyte(x, i):
    if ff.isfc(x):
        return tm.const((x.args[0] >> (8 * i)) & 255, U8)
    return tm.mk("fby", (x, i), U8)


NOTED = []                # integer or boolean terms over bytes or limbs that could not be decided
RUNS = []


def israw(u):
    return u.op in ("fby", "fl") or u.op == "var" and u.ty in (U8, U32) and u.args[0].rpartition("_")[2].isdigit()


def raw(t):
    return any(u.op in ("fby", "fl") for u in tm.subterms([t]))


def raws(t):
    return any(israw(u) for u in tm.subterms([t]))


def place(u):
    """(what, index) of an atom"""
    if u.op == "var":
        n, _, i = u.args[0].rpartition("_")
        return ("var", n), int(i)
    return (u.op, u.args[0]), u.args[1]


def hints(limit=14, per=4, budget=40):
    """values of field elements that make the undecided conditions true and false"""
    import random
    import z3
    R = random.Random(1)
    end = time.time() + budget
    conds, seen = [], set()
    br = []
    exs = []
    for ex in [r.ex for r in RUNS] + EXECS:
        if ex not in exs:
            exs.append(ex)
    for ex in exs:
        freq = {}
        for b in ex.branches:
            freq[b[2:]] = freq.get(b[2:], 0) + 1
        for c, g, *site in ex.branches:
            if isinstance(c, T) and raws(c):
                own = [x for x in conjuncts(g) if raws(x)]
                gs = own[-64:]             # what lies further back is left to the replay
                n = freq[tuple(site)]
                br += [(n // 8, -len(gs), tm.band(c, *gs)), (n // 8, -len(gs), tm.band(tm.bnot(c), *gs))]
    br = [t for *_, t in sorted(br, key=lambda x: x[:2])]
    pos = set(br)
    for t in br + NOTED:
        if isinstance(t, T) and t.id not in seen and t.op != "c" and raws(t):
            seen.add(t.id)
            conds.append(t)
    out = []
    for j, t in enumerate(conds[:limit]):
        at = {}
        for u in tm.subterms([t]):
            if israw(u):
                at[u] = tm.var("a%d" % u.id, u.ty)
        outer = top(t, at)
        by = {}
        for u in outer:
            k, i = place(u)
            if i < 64:
                by.setdefault(k, {})[i] = u
        try:
            g = ff.fsubst([t], at)[0]
            bv = solve.BV()
            pols = ([bv.t(g)] if t in pos else [bv.t(g), z3.Not(bv.t(g))]) if g.ty == BOOL else [bv.t(tm.cmp("eq", g, tm.const(k, g.ty))) for k in (0, 1)]
        except Exception:
            continue
        for pol in pols:
            got = []
            for _ in range(per if j > 1 else 12 * per):
                if time.time() > end:
                    return out
                s = z3.SolverFor("QF_BV")
                s.set("timeout", 3000)
                s.add(pol)
                want = {}
                for k, us in by.items():
                    w32 = k[0] == "var" and next(iter(us.values())).ty == U32
                    n = 8 if w32 else 5 if k[0] == "fl" and next(iter(us.values())).ty == U64 else 10 if k[0] == "fl" else 64 if max(us) > 31 else 32
                    W = [51 * i for i in range(5)] if n == 5 else [(51 * i + 1) // 2 for i in range(10)] if n == 10 else [32 * i for i in range(8)] if n == 8 else [8 * i for i in range(n)]
                    v = R.randrange(2**512 if n == 64 else ref.p if k[0] != "var" or R.random() < 0.3 else ref.l)
                    want[k] = [n, W, [(v >> w) & ((1 << ((W + [255 if k[0] != "var" else 256 if n != 64 else 512])[i + 1] - w)) - 1) for i, w in enumerate(W)]]
                    for i, u in us.items():
                        if k[0] == "fl":
                            x = bv.t(at[u])
                            m = (1 << ((W + [255])[i + 1] - W[i])) - 1
                            s.add(x >= 0, x <= m) if u.ty == I32 else s.add(z3.ULE(x, m))
                        elif i == 31 and k[0] == "fby":
                            s.add(z3.ULE(bv.t(at[u]), 126))
                if s.check() != z3.sat:
                    break
                lits = [(k, i, u) for k, us in by.items() for i, u in us.items()]
                R.shuffle(lits)
                for k, i, u in lits:
                    if i >= want[k][0]:
                        continue
                    c = bv.t(at[u]) == want[k][2][i]
                    if s.check(c) == z3.sat:
                        s.add(c)
                if s.check() != z3.sat:
                    break
                m = s.model()
                for k, us in by.items():
                    n, W, v = want[k]
                    for i, u in us.items():
                        if i >= n:
                            continue
                        v[i] = m.eval(bv.t(at[u]), model_completion=True).as_long()
                    x = sum(x << w for x, w in zip(v, W))
                    got.append(x if k[0] == "var" else x % ref.p)
                    if got[-1] not in out:
                        out.append(got[-1])
                if len(got) > 6 * len(by) and len(set(got)) <= len(by):
                    break
    return out


def conjuncts(t):
    if isinstance(t, (list, tuple)):
        return [x for u in t for x in conjuncts(u)]
    if t.op == "band":
        return [x for u in t.args for x in conjuncts(u)]
    return [t]


def top(t, at):
    """the byte and limb atoms of t that do not lie below other atoms"""
    out, todo, seen = [], [t], set()
    while todo:
        u = todo.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u in at:
            out.append(u)
        else:
            todo += [x for x in u.args if isinstance(x, T)]
    return out


def flag(t, memo=None):
    """{value: condition} of an integer term built from 0/1 decisions"""
    memo = {} if memo is None else memo
    for u in tm.subterms([t]):
        if u.id in memo or u.ty == BOOL or u.ty == FTY:
            continue
        memo[u.id] = _flag(u, memo)
    r = memo[t.id]
    if r is None:
        NOTED.append(t)
        raise Unsupported("not a decision: " + tm.show(t, 3))
    return r


def _flag(u, memo):
    if u.op == "c":
        return {u.args[0]: TRUE}
    if u.op == "ite":
        a, b = memo[u.args[1].id], memo[u.args[2].id]
        if a is None or b is None:
            return None
        c = boolnf(u.args[0], memo)
        out = {}
        for m, g in ((a, c), (b, tm.bnot(c))):
            for v, h in m.items():
                x = tm.band(g, h)
                if x is not FALSE:
                    out[v] = tm.bor(out[v], x) if v in out else x
        return out
    if u.op == "and" and u.args[1].op == "c" and u.args[1].args[0] == 1:
        x = u.args[0]
        while x.op == "conv" and x.args[0].op in ("conv", "fby"):
            x = x.args[0]
        if x.op == "fby" and x.args[1] == 0:
            return {1: fsg(x.args[0]), 0: tm.bnot(fsg(x.args[0]))}
    args = [memo.get(x.id) if isinstance(x, T) else {x: TRUE} for x in u.args]
    if any(a is None for a in args) or u.op in ("var", "fby", "fl"):
        return None
    out = {}
    for combo in itertools.product(*[a.items() for a in args]):
        g = tm.band(*[c for _, c in combo])
        if g is FALSE:
            continue
        v = tm.apply(u, [x for x, _ in combo])
        out[v] = tm.bor(out[v], g) if v in out else g
    return out if len(out) <= 24 else None


def boolnf(t, memo=None):
    """boolean term without integer decisions"""
    memo = {} if memo is None else memo
    bm = {}
    for u in tm.subterms([t]):
        if u.ty != BOOL:
            if u.id not in memo and u.ty != FTY:
                memo[u.id] = _flag(u, memo)
            continue
        if u.op == "c" or u.op in ("fz", "fsg", "fsq", "var", "uf"):
            bm[u.id] = u
        elif u.op in ("bnot", "band", "bor"):
            bm[u.id] = tm.rebuild(u, [bm[x.id] for x in u.args])
        elif u.op in ("eq", "lt", "le") and u.args[0].ty != BOOL:
            a, b = memo.get(u.args[0].id), memo.get(u.args[1].id)
            if a is None or b is None:
                NOTED.append(u)
                bm[u.id] = byteatom(u)
            else:
                r = FALSE
                for (x, g), (y, h) in itertools.product(a.items(), b.items()):
                    if (x == y if u.op == "eq" else x < y if u.op == "lt" else x <= y):
                        r = tm.bor(r, tm.band(g, h))
                bm[u.id] = r
        else:
            bm[u.id] = u
    return bm[t.id]


_ba = {}


def byteatom(u):
    """a condition over the bytes of one field element may be a predicate we know"""
    if u.id in _ba:
        return _ba[u.id]
    _ba[u.id] = u
    at = {}
    for x in tm.subterms([u]):
        if x.op == "fby":
            at[x] = tm.var("y%d" % x.args[1], U8)
        elif x.op in ("fl", "var", "fb", "uf"):
            return u
    xs = {x.args[0] for x in at}
    if len(xs) != 1:
        return u
    x = xs.pop()
    b = [at.get(tm.mk("fby", (x, i), U8)) for i in range(32)]
    g = ff.fsubst([u], at)[0]
    want = []
    if None not in b:
        want.append((tm.band(*[tm.cmp("eq", y, tm.const(0, U8)) for y in b]), fz(x)))
    if b[0] is not None:
        want.append((tm.cmp("eq", tm.binop("and", b[0], tm.const(1, U8)), tm.const(1, U8)), fsg(x)))
    for w, r in want:
        for w, r in ((w, r), (tm.bnot(w), tm.bnot(r))):
            if solve.prove_bv(tm.bor(tm.band(g, w), tm.band(tm.bnot(g), tm.bnot(w))), timeout=5)[0] == "proved":
                _ba[u.id] = r
                return r
    return u


class FExec(Executor):
    B = None
    LIMBS = False            # limbs may be looked at (only to find witnesses)

    def indexaddr(self, st, x, y, ins, f):
        if self.B.is_fe(ins["x"].get("t"), True) and not f["name"].endswith(".init") and not FExec.LIMBS:
            raise Unsupported("limb access outside the field operations in " + f["name"])
        return Executor.indexaddr(self, st, x, y, ins, f)


class FRun:
    """an executor with the field operations replaced by their contracts (C01, C02, optionally C03)"""

    def __init__(self, B, level=3):
        self.B = B
        self.level = level
        self.roots = {}
        self.ex = FExec(B.p, {})
        self.ex.B = B
        self.ex.deadline = time.time() + 200
        self.st = self.ex.init_state()
        self.ex.hooks = self.hooks()
        self.used = set()
        RUNS.append(self)

    def limbs(self, x):
        return tuple(tm.mk("fl", (x, i), self.B.ty) for i in range(self.B.n))

    def recover(self, limbs):
        """field term held by a tuple of limb terms"""
        if all(t.op == "c" for t in limbs):
            return fc(self.B.value([t.args[0] for t in limbs]))
        if all(t.op == "fl" and t.args[1] == i and t.args[0] is limbs[0].args[0] for i, t in enumerate(limbs)):
            return limbs[0].args[0]
        for t in limbs:
            if t.op == "ite":
                c = t.args[0]
                break
        else:
            raise Unsupported("mixed limbs")
        a = tuple(t.args[1] if t.op == "ite" and t.args[0] is c else t for t in limbs)
        b = tuple(t.args[2] if t.op == "ite" and t.args[0] is c else t for t in limbs)
        return fite(boolnf(c), self.recover(a), self.recover(b))

    def get(self, st, p):
        return self.recover(self.ex.load(st, p))

    def put(self, st, p, x):
        self.ex.store(st, p, self.limbs(x))

    def frombytes(self, bs):
        if all(t.op == "fby" and t.args[1] == i and t.args[0] is bs[0].args[0] for i, t in enumerate(bs)):
            return bs[0].args[0]
        if all(t.op == "c" for t in bs):
            return fc(sum(t.args[0] << (8 * i) for i, t in enumerate(bs)) % 2**255)
        for t in bs:
            if t.op == "ite" and raw(t.args[0]):
                c = t.args[0]
                a, b = [self.frombytes(tuple(t.args[k] if t.op == "ite" and t.args[0] is c else t for t in bs)) for k in (1, 2)]
                if "fb" not in (a.op, b.op):
                    return fite(boolnf(c), a, b)
                break
        return tm.mk("fb", tuple(bs), FTY)

    def hooks(self):
        B = self.B
        H = {}

        def arith(n, s):
            k = B.sig(n)

            def h(ex, st, args, ins):
                ops = [self.get(st, a) for a in (args[1:] if k > 1 else args)]
                self.put(st, args[0], FSPEC[s](*ops))
                self.used.add(n)
                return args[0]
            return h
        for n in B.leaf:
            s = B.spec(n)
            if s is not None:
                H[n] = arith(n, s)

        def setbytes(ex, st, args, ins):
            self.used.add(FE("SetBytes"))
            self.put(st, args[0], self.frombytes(ex.load(st, args[1])))
            return args[0]

        def bytesinto(ex, st, args, ins):
            self.used.add(FE("BytesInto"))
            x = self.get(st, args[0])
            ex.store(st, args[1], tuple(fbyte(x, i) for i in range(32)))
            return args[0]

        def condset(ex, st, args, ins):
            self.used.add(FE("ConditionalSet"))
            m = flag(args[2])
            if set(m) - {0, 1}:
                bad = tm.bor(*[c for v, c in m.items() if v not in (0, 1)])
                ex.oblige(st, tm.bnot(bad), "ConditionalSet flag not 0 or 1", ins)
            a, b = self.get(st, args[0]), self.get(st, args[1])
            self.put(st, args[0], fite(m.get(1, FALSE), b, a))
            return None
        H[FE("SetBytes")], H[FE("BytesInto")], H[FE("ConditionalSet")] = setbytes, bytesinto, condset
        if self.level >= 2:
            def pred(m, f):
                def h(ex, st, args, ins):
                    self.used.add(FE(m))
                    return f(*[self.get(st, a) for a in args])
                return h
            H[FE("IsNegativeI")] = pred("IsNegativeI", lambda x: tm.b2i(fsg(x), I32))
            H[FE("IsNonZeroI")] = pred("IsNonZeroI", lambda x: tm.b2i(tm.bnot(fz(x)), I32))
            H[FE("IsOneI")] = pred("IsOneI", lambda x: tm.b2i(fz(ffsub(x, ONE)), I32))
            H[FE("EqualsI")] = pred("EqualsI", lambda x, y: tm.b2i(fz(ffsub(x, y)), I32))
            H[FE("Equals")] = pred("Equals", lambda x, y: fz(ffsub(x, y)))
        if self.level >= 3:
            def invsqrt(ex, st, args, ins):
                self.used.add(FE("InvSqrt"))
                self.put(st, args[0], self.root("r", self.get(st, args[1])))
                return args[0]

            def invsqrti(ex, st, args, ins):
                self.used.add(FE("InvSqrtI"))
                a = self.get(st, args[1])
                self.put(st, args[0], self.root("ri", a))
                return tm.b2i(fsq(a), I32)

            def inverse(ex, st, args, ins):
                self.used.add(FE("Inverse"))
                self.put(st, args[0], self.root("inv", self.get(st, args[1])))
                return args[0]

            def sqrt(ex, st, args, ins):
                self.used.add(FE("Sqrt"))
                self.put(st, args[0], self.root("sqrt", self.get(st, args[1])))
                return args[0]

            def absf(ex, st, args, ins):
                self.used.add(FE("Abs"))
                x = self.get(st, args[1])
                self.put(st, args[0], fite(fsg(x), ffneg(x), x))
                return args[0]
            H[FE("InvSqrt")], H[FE("InvSqrtI")], H[FE("Inverse")], H[FE("Sqrt")], H[FE("Abs")] = invsqrt, invsqrti, inverse, sqrt, absf
        return {n: h for n, h in H.items() if n in B.p.funcs}

    def root(self, kind, a):
        return tm.mk("root", (kind, a), FTY)

    # ---- values -------------------------------------------------------------
    def obj(self, name, val, st=None):
        return Ptr(self.ex.new(st or self.st, val, name))

    def fe(self, x):
        return self.limbs(x if isinstance(x, T) else fc(x))

    def struct(self, *xs):
        return tuple(self.fe(x) for x in xs)

    def vals(self, st, p):
        return tuple(self.recover(c) for c in self.ex.load(st, p))


def conds(ts):
    """boolean conditions of conditionals in terms"""
    return [u.args[0] for u in tm.subterms(ts) if u.op == "fite"]


ATOMS = ("fz", "fsg", "fsq", "var", "uf", "eq", "lt", "le")


def batoms(b):
    out = []
    for u in tm.subterms([b]):
        if u.ty == BOOL and u.op in ATOMS:
            out.append(u)
    return out


class Split:
    """case analysis over boolean atoms and inverse roots; calls leaf(ctx, terms, path) at each consistent case"""

    def __init__(self, hyps=(), nes=(), signs=(), lemmas=None, maxleaf=400, timeout=20, samples=()):
        self.base = ff.Ctx(hyps, nes, signs)
        self.base.smp = [dict(e) for e in samples]
        self.base.refilter()
        self.base.timeout = timeout
        self.leaves = 0
        self.lemmas = lemmas         # callable(ctx, kind, a, r) -> extra nes/eqs at a root
        self.maxleaf = maxleaf

    def run(self, terms, leaf, bools=()):
        """terms: field terms; bools: boolean terms whose truth is also wanted.  Returns list of failures (strings)."""
        self.fail = []
        self.most = 0 if any(u.op in ("fby", "fl") for u in tm.subterms(list(terms) + list(bools))) else 3
        self.cex = []            # concrete assignments of failing cases, for the replay
        self._go(list(terms), list(bools), self.base, (), leaf)
        return self.fail

    def pick(self, terms, bools):
        """an innermost undecided atom or an unprocessed root"""
        us = tm.subterms(terms + bools)
        rad = {u.args[1]: u for u in us if u.op == "root" and u.args[0] in ("r", "ri")}
        for u in us:
            if u.op == "fsq" and u.args[0] in rad and not any(x.op in ("fite", "root") for x in tm.subterms([u.args[0]])):
                return rad[u.args[0]]
            if u.op == "root" and u not in self.done:
                return u
            if u.ty == BOOL and u.op in ATOMS:
                inner = tm.subterms([x for x in u.args if isinstance(x, T)])
                if not any(x.op in ("fite",) for x in inner):
                    return u
        return None

    done = frozenset()

    def _go(self, terms, bools, ctx, path, leaf):
        if len(self.fail) > self.most:
            return
        u = self.pick(terms, bools)
        if u is None:
            self.leaves += 1
            if self.leaves > self.maxleaf:
                raise Unsupported("too many cases")
            if ctx.inconsistent() or ctx.contradictory_signs():
                return
            r = leaf(ctx, terms, bools, path)
            if r:
                if ctx.smp:
                    self.cex += ctx.smp[:3]
                else:
                    m = ctx.model()
                    if m:
                        self.cex.append(m)
                self.fail.append("%s in case %s" % (r, [("" if v else "!") + tm.show(a, 2) for a, v in path]))
            return
        if u.op == "root":
            self._root(u, terms, bools, ctx, path, leaf)
            return
        poss = (True, False)
        if u.op == "fsq":
            for b, what, kb, yb in ctx.roots:
                if what in ("square", "nonsquare", "a=0") and kb != "inv" and ctx.zero(ffsub(u.args[0], b)):
                    poss = (what == "square",)
                    break
        for v in poss:
            c = ctx.copy()
            if u.op == "fz":
                (c.eqs if v else c.nes).append(u.args[0])
            elif u.op == "fsg":
                c.signs.append((u.args[0], v))
                if v:
                    c.nes.append(u.args[0])
            elif u.op == "fsq":
                self.square(c, u.args[0], v)
            self.filter(c, u, v)
            if u.op in ("fz", "fsg", "fsq") and c.inconsistent():
                continue
            ts = ff.fsubst(terms + bools, {u: tm.boolc(v)})
            self._go(ts[:len(terms)], ts[len(terms):], c, path + ((u, v),), leaf)

    def filter(self, c, u, v):
        out = []
        for e in c.smp:
            try:
                e = dict(e)
                if u.op == "fsq":
                    a = ff.feval([u.args[0]], e)[0]
                    e[tm.mk("wit", (u.args[0],), FTY)] = ref.sqrt_ratio(a if v else a * ref.I, 1)[1]
                if ff.feval([u], e)[0] != v:
                    continue
            except KeyError:
                continue
            out.append(e)
        c.smp = out
        c.refilter()

    def square(self, c, a, v):
        """squareness: witness s with s^2 = a, or s^2 = i*a (a non-square), or a = 0"""
        s = tm.mk("wit", (a,), FTY)
        if v:
            c.eqs.append(ffsub(ffmul(s, s), a))
            c.nes.append(a)
            if self.lemmas:
                self.lemmas(c, "square", a, s)
        else:
            c.eqs.append(ffsub(ffmul(s, s), ffmul(fc(ref.I), a)))
            if self.lemmas:
                self.lemmas(c, "nonsq", a, s)

    def _root(self, u, terms, bools, ctx, path, leaf):
        kind, a = u.args
        old = self.done
        cases = []
        y = tm.mk("rt", (kind, a), FTY)      # the value as a variable
        # a = 0
        c = ctx.copy()
        c.eqs += [a, y]
        if self.lemmas:
            self.lemmas(c, "zero", a, y)
        cases.append((c, "a=0"))
        if kind == "inv":
            c = ctx.copy()
            c.nes.append(a)
            c.eqs.append(ffsub(ffmul(a, y), ONE))
            cases.append((c, "a!=0"))
        elif kind in ("r", "ri", "sqrt"):
            if kind != "sqrt":
                c = ctx.copy()
                c.nes.append(a)
                c.eqs.append(ffsub(ffmul(a, ffmul(y, y)), ONE))
                if self.lemmas:
                    self.lemmas(c, "square", a, y)
                cases.append((c, "square"))
            else:
                c = ctx.copy()
                c.nes.append(a)
                c.eqs.append(ffsub(ffmul(y, y), a))
                c.signs.append((y, False))
                cases.append((c, "square"))
            c = ctx.copy()
            c.nes.append(a)
            if kind == "r":
                z = ffmul(a, ffmul(y, y))
                c.eqs.append(ffadd(ffmul(z, z), ONE))
            elif kind == "ri":
                c.eqs.append(ffsub(ffmul(fc(ref.I), ffmul(a, ffmul(y, y))), ONE))
            if self.lemmas:
                self.lemmas(c, "root", a, y)
            cases.append((c, "nonsquare"))
        known = None
        for b, what, kb, yb in ctx.roots:
            if ctx.zero(ffsub(a, b)):
                known = (what, kb, yb)
        for c, what in cases:
            if known and kind in ("r", "ri", "sqrt") and known[1] in ("r", "ri", "sqrt"):
                if what != known[0]:
                    continue
                if kind == known[1]:
                    c.eqs.append(ffsub(y, known[2]))       # a function of the value
            c.roots = ctx.roots + [(a, what, kind, y)]
            out = []
            for e in c.smp:
                try:
                    v = ff.feval([a], e)[0]
                except KeyError:
                    continue
                if kind == "inv":
                    e = dict(e)
                    e[y] = ref.inv(v)
                    out.append(e)
                elif kind == "sqrt":
                    e = dict(e)
                    e[y] = ref.sqrt_ratio(v, 1)[1]
                    out.append(e)
                else:       # either sign of the root is possible
                    r = ref.sqrt_ratio(1, v)[1]
                    for w in {r, -r % ref.p, r * ref.I % ref.p, -r * ref.I % ref.p}:
                        e = dict(e)
                        e[y] = w
                        out.append(e)
            c.smp = out[:400]
            c.refilter()
            if c.inconsistent():
                continue
            env = {u: y}
            if kind in ("ri", "r"):
                env[fsq(a)] = tm.boolc(what == "square")
            ts = ff.fsubst(terms + bools, env)
            self._go(ts[:len(terms)], ts[len(terms):], c, path + ((tm.mk("uf", (what, a), BOOL), True),), leaf)
