"""C19: the C reference package."""
import glob
import os
from .c10 import *
from . import c01, c02, c03, c11, c13, grp
from symgo import llir, build

BOUNDS = ("all 32-byte strings for the decoders; all field elements and points with limbs inside the boxes the package itself produces (closed under its operations); all scalars below 2^253; "
          "loops unrolled completely (255-bit exponentiations, 51 windows of 5 bits); the C code is taken as clang's LLVM IR of the current source")
EXPLAIN = ("The C functions are compiled to LLVM IR and executed symbolically.  Field arithmetic: exact integer polynomials with explicit carries, identity modulo 2^255-19 and limb boxes by the solver.  "
           "Point functions: over abstract field values with a check of every operand's limb box; the solver (finite fields) compares them with the group law, RFC 9496 encoding and map.  Scalar multiplication: linear forms "
           "in the digits, the recoding by a bit-vector carry chain.")
ASSUME = ["clang's LLVM IR and the C compiler cgo uses give the same meaning to the C source; the cgo wrappers pass their operands unchanged (the replay runs through them)",
          "Fermat and Euler; i, d, d/(d+1) and -d are not squares (computed)", "the Edwards curve with its addition law is an abelian group"]

W10 = [(51 * i + 1) // 2 for i in range(10)]


def symbox(even, odd):
    return tuple((-even, even) if i % 2 == 0 else (-odd, odd) for i in range(10))


def scale(f):
    return symbox(int(f * 2**25), int(f * 2**24))


MBOX = scale(1.01)                  # results of multiplications and of unpack
XBOX = symbox(2 * int(1.01 * 2**25), 2 * int(1.01 * 2**24))
MULIN = scale(3.3)
PACKIN = scale(2.2)
LININ = symbox(2**30 - 1, 2**30 - 1)
PBOX = (XBOX, MBOX, MBOX, MBOX)     # coordinates of a point


class Shim:
    n, ty, W, tag, label = 10, I32, W10, "cref", "cref"

    @staticmethod
    def value(v):
        return sum(x << w for x, w in zip(v, W10)) % ref.p


B10 = Shim()


def inside(a, b):
    return all(l >= m and h <= k for (l, h), (m, k) in zip(a, b))


def hull(a, b):
    return tuple((min(l, m), max(h, k)) for (l, h), (m, k) in zip(a, b))


def module(ctx):
    m = ctx.cache.get("cref")
    if m is None:
        for i, f in enumerate(sorted(glob.glob(os.path.join(build.REPO, "cref", "*.c")))):
            x = llir.Module(llir.emit(f, os.path.join(ctx.work, "cref%d.ll" % i)))
            if m is None:
                m = x
            else:
                m.types.update(x.types)
                m.globals.update(x.globals)
                m.funcs.update(x.funcs)
        if m is None:
            raise Unsupported("no C source")
        ctx.cache["cref"] = m
    return m


# ---- contracts ---------------------------------------------------------------------
ARITHF = {"fe25519_add": ("add", LININ), "fe25519_sub": ("sub", LININ), "fe25519_neg": ("neg", LININ), "fe25519_double": ("dbl", LININ),
          "fe25519_mul": ("mul", MULIN), "fe25519_square": ("sqr", MULIN), "fe25519_square_double": ("dsqr", MULIN)}


def linbox(s, bs):
    if s == "neg":
        return tuple((-h, -l) for l, h in bs[0])
    if s == "dbl":
        return tuple((2 * l, 2 * h) for l, h in bs[0])
    if s == "add":
        return tuple((l + m, h + k) for (l, h), (m, k) in zip(*bs))
    return tuple((l - k, h - m) for (l, h), (m, k) in zip(*bs))


class CRun:
    """hooks that give the field functions their contracts; every operand's limb box is checked"""
    B = B10
    recover = fev.FRun.recover
    frombytes = fev.FRun.frombytes

    def __init__(self, mod, level=3, drop=()):
        self.m, self.level = mod, level
        self.box, self.used, self.obl = {}, set(), []
        H = {}
        for n, (s, need) in ARITHF.items():
            H[n] = self.arith(n, s, need)
        H["fe25519_unpack"], H["fe25519_pack"], H["fe25519_cmov"] = self.unpack, self.pack, self.cmov
        if level >= 2:
            H["fe25519_iszero"] = self.pred("fe25519_iszero", lambda x: fev.fz(x))
            H["fe25519_isnegative"] = self.pred("fe25519_isnegative", lambda x: fev.fsg(x))
            H["fe25519_isone"] = self.pred("fe25519_isone", lambda x: fev.fz(S_(x, ONE)), scale(2.0))
            H["fe25519_iseq"] = self.pred("fe25519_iseq", lambda x, y: fev.fz(S_(x, y)), scale(1.1))
        if level >= 3:
            H["fe25519_invsqrt"] = self.rooth("fe25519_invsqrt", "r")
            H["fe25519_invsqrti"] = self.rooth("fe25519_invsqrti", "ri")
        self.hooks = {n: h for n, h in H.items() if n in mod.funcs and n not in drop}

    def limbs(self, x, box):
        x = x if isinstance(x, T) else fc(x)
        self.box[x] = hull(self.box[x], box) if x in self.box else box
        return tuple(tm.mk("fl", (x, i), I32) for i in range(10))

    def boxof(self, limbs):
        out = []
        for t in limbs:
            out.append(self.lbox(t))
        return tuple(out)

    def lbox(self, t):
        if t.op == "c":
            return (t.args[0], t.args[0])
        if t.op == "fl":
            return self.box[t.args[0]][t.args[1]]
        if t.op == "ite":
            a, b = self.lbox(t.args[1]), self.lbox(t.args[2])
            return (min(a[0], b[0]), max(a[1], b[1]))
        raise Unsupported("limb arithmetic outside the field functions")

    def get(self, ex, p, need=None):
        c = ex.cells(p, 10, 4)
        c = tuple(t if t.op != "c" else tm.conv(t, I32) for t in c)
        if need is not None and not inside(self.boxof(c), need):
            raise Unsupported("operand may exceed the limb bounds: %s" % (self.boxof(c)[:2],))
        return self.recover(c)

    def put(self, ex, p, x, box):
        ex.put(p, self.limbs(x, box), 4)

    def arith(self, n, s, need):
        def h(ex, args):
            self.used.add(n)
            xs = [self.get(ex, a, need) for a in args[1:]]
            bs = [self.boxof(ex.cells(a, 10, 4)) for a in args[1:]]
            self.put(ex, args[0], fev.FSPEC[s](*xs), MBOX if need is MULIN else linbox(s, bs))
        return h

    def unpack(self, ex, args):
        self.used.add("fe25519_unpack")
        self.put(ex, args[0], self.frombytes(ex.cells(args[1], 32, 1)), MBOX)

    def pack(self, ex, args):
        self.used.add("fe25519_pack")
        x = self.get(ex, args[1], PACKIN)
        ex.put(args[0], [fev.fbyte(x, i) for i in range(32)], 1)

    def cmov(self, ex, args):
        self.used.add("fe25519_cmov")
        m = fev.flag(args[2])
        if set(m) - {0, 1}:
            self.obl.append(tm.bnot(tm.bor(*[c for v, c in m.items() if v not in (0, 1)])))
        a, b = self.get(ex, args[0]), self.get(ex, args[1])
        bx = hull(*[self.boxof(ex.cells(x, 10, 4)) for x in args[:2]])
        x = fev.fite(m.get(1, FALSE), b, a)
        self.put(ex, args[0], x, bx)

    def pred(self, n, f, need=PACKIN):
        def h(ex, args):
            self.used.add(n)
            return tm.b2i(f(*[self.get(ex, a, need) for a in args]), I32)
        return h

    def rooth(self, n, kind):
        def h(ex, args):
            self.used.add(n)
            a = self.get(ex, args[1], PACKIN)
            self.put(ex, args[0], tm.mk("root", (kind, a), FTY), MBOX)
            return tm.b2i(fev.fsq(a), I32) if kind == "ri" else None
        return h

    # ---- objects ------------------------------------------------------------------
    def fe(self, ex, x, box=MBOX):
        return ex.alloc(self.limbs(x, box), 4)

    def ge(self, ex, xs, boxes=PBOX):
        return ex.alloc([l for x, b in zip(xs, boxes) for l in self.limbs(x, b)], 4)

    def getge(self, ex, p, boxes=None):
        return tuple(self.get(ex, llir.P(p.obj, p.off + 40 * j), boxes[j] if boxes else None) for j in range(4))

    def fns(self, ex):
        if self.obl and self.level >= 3:
            raise Unsupported("cmov flag may be neither 0 nor 1")
        return sorted("cref." + f for f in ex.funcs | self.used)


def one(paths):
    if len(paths) != 1:
        raise Unsupported("%d paths" % len(paths))
    return paths[0][1:]


def merged(mod, R, setup, n, f):
    """the values f(exec, pointers, result) yields, joined over all paths; a number or boolean result is a flag"""
    fns, vals = set(), None
    for cond, ex, args, r in llir.run(mod, R.hooks, setup, n):
        x = f(ex, args, r)
        fns |= set(R.fns(ex))
        cond = fev.boolnf(cond)
        if vals is None:
            vals = list(x)
            continue
        for i, (a, b) in enumerate(zip(x, vals)):
            if isinstance(a, dict):
                vals[i] = {k: tm.bor(tm.band(cond, a.get(k, FALSE)), tm.band(tm.bnot(cond), b.get(k, FALSE))) for k in set(a) | set(b)}
            else:
                vals[i] = fev.fite(cond, a, b)
    return sorted(fns), vals


def expect(c, why):
    if not c:
        raise Unsupported(why)


def junk(ex, n=10, size=4, nm="old"):
    return ex.alloc([tm.var("%s%d" % (nm, i), (8 * size, True)) for i in range(n)], size)


# ---- field -------------------------------------------------------------------------

def run_arith(mod, n, pat):
    k = len(mod.funcs[n]["params"])
    vs = {}

    def setup(ex):
        objs, ptrs = {}, []
        for i, j in enumerate(pat):
            if j not in objs:
                vs[j] = limbvars("y%d" % j, 10, I32)
                objs[j] = ex.alloc(vs[j], 4)
            ptrs.append(objs[j])
        return ptrs
    ex, args, r = one(llir.run(mod, {}, setup, n))
    for j, p in zip(pat, args):
        if j != pat[0] and ex.cells(p, 10, 4) != vs[j]:
            raise Unsupported("operand changed")
    return ex, [vs[j] for j in pat[1:]], tuple(tm.conv(t, I32) for t in ex.cells(args[0], 10, 4))


def goal_arith(ctx, n):
    mod = module(ctx)
    if n not in mod.funcs:
        return unknown("no such function")
    s, need = ARITHF[n]
    k = len(mod.funcs[n]["params"])
    rs = []
    base = None
    for pat in {2: [(0, 1), (0, 0)], 3: [(0, 1, 2), (0, 0, 2), (0, 1, 0), (0, 1, 1), (0, 0, 0)]}[k]:
        ex, ins, res = run_arith(mod, n, pat)
        fns = ["cref." + f for f in ex.funcs]
        if base is None:
            base = (ins, res)
        else:
            env = {x: y for a, b in zip(base[0], ins) for x, y in zip(a, b)}
            if tuple(tm.subst(base[1], env)) == res:
                rs.append(proved(functions=fns))
                continue
        boxes = [need] * len(ins)
        st, why, L, mod2, sub = c01.prove_op(B10, n, ins, res, boxes, s, MBOX if need is MULIN else linbox(s, boxes))
        rs.append(proved(functions=fns, sub=sub) if st == "proved" else dict(status="refuted" if st == "failed" else "unknown", detail="%s %s" % (pat, why), functions=fns,
                                                                                       cases=lift_mul(mod, n) if need is MULIN and len(rs) == 0 else []))
    return combine(rs)


def goal_unpack(ctx):
    mod = module(ctx)
    bs = bytesvars("b", 32)
    ex, args, r = one(llir.run(mod, {}, lambda ex: [junk(ex), ex.alloc(bs, 1)], "fe25519_unpack"))
    fns = ["cref." + f for f in ex.funcs]
    if ex.cells(args[1], 32, 1) != bs:
        return unknown("input changed", functions=fns)
    lim = tuple(tm.conv(t, I32) for t in ex.cells(args[0], 10, 4))
    L = LIF({b: (0, 255) for b in bs})
    D = c01.poly(L, B10, lim)
    for i, b in enumerate(bs[:31] + (tm.binop("and", bs[31], tm.const(127, U8)),)):
        D = padd(D, L.poly(b), -(1 << (8 * i)))
    st = solve.prove_zero_mod(L, D, ref.p)[0]
    cases = []
    if st != "proved":
        q = TQ({})
        V = q.val(bs[:31] + (tm.binop("and", bs[31], tm.const(127, U8)),), 8)
        R = {}
        for t, w in zip(lim, W10):
            R = fadd(R, q.X.form(t), 1 << w)
        q.forms.append(R)
        st, m = q.prove(lambda z: z3.Or(*[z(V) - z(R) == k * ref.p for k in range(-3, 4)]), timeout=60)
        if m is not None:
            cases = fe_cases(bytes(q.model(m, t) for t in bs))
    if st != "proved":
        return dict(status="refuted" if st == "failed" else "unknown", detail="value: %s" % st, cases=cases, functions=fns)
    for t, (lo, hi) in zip(lim, MBOX):
        if solve.prove_range(L, L.poly(t), lo, hi)[0] != "proved":
            return unknown("limb bounds", functions=fns)
    return proved(functions=fns, sub=11)


def goal_pack(ctx):
    mod = module(ctx)
    vs = limbvars("x", 10, I32)
    ex, args, r = one(llir.run(mod, {}, lambda ex: [junk(ex, 32, 1), ex.alloc(vs, 4)], "fe25519_pack"))
    fns = ["cref." + f for f in ex.funcs]
    if ex.cells(args[1], 10, 4) != vs:
        return unknown("operand changed", functions=fns)
    by = tuple(tm.conv(t, U8) for t in ex.cells(args[0], 32, 1))
    s, m = c02.prove_bytes(B10, vs, by, PACKIN, 90)
    return proved(functions=fns, sub=2) if s == "proved" else unknown(s, functions=fns, cases=lift_pack(mod))


def through(mod, bs, then):
    """limbs of unpack(bs), handed to then(ex, pointer)"""
    ex = llir.Exec(mod)
    h = junk(ex)
    ex.call("fe25519_unpack", [h, ex.alloc(bs, 1)])
    return ex, then(ex, h)


def lift_pack(mod):
    """byte strings for which pack after unpack is wrong"""
    bs = bytesvars("b", 32)

    def then(ex, h):
        o = junk(ex, 32, 1)
        ex.call("fe25519_pack", [o, h])
        return tuple(tm.conv(t, U8) for t in ex.cells(o, 32, 1))
    ex, by = through(mod, bs, then)
    q = TQ({})
    V = q.val(bs[:31] + (tm.binop("and", bs[31], tm.const(127, U8)),), 8)
    R = q.val(by, 8)
    s, m = q.prove(lambda z: z3.And(z(R) >= 0, z(R) < ref.p, z3.Or(*[z(V) - z(R) == k * ref.p for k in (0, 1)])), timeout=60)
    return fe_cases(bytes(q.model(m, t) for t in bs)) if m is not None else []


def lift_mul(mod, n):
    """inputs of the map for which a product with a constant is wrong"""
    bs = bytesvars("b", 32)
    out = []
    cons = ex0 = None
    for g in ("@fe25519_sqrtm1",):
        if g not in mod.globals or n != "fe25519_mul":
            return []

        def then(ex, h):
            o = junk(ex)
            ex.call(n, [o, h, ex.gptr(g)])
            return tuple(tm.conv(t, I32) for t in ex.cells(o, 10, 4)), B10.value([t.args[0] for t in ex.cells(ex.gptr(g), 10, 4)])
        ex, (lim, c) = through(mod, bs, then)
        q = TQ({})
        V = q.val(bs[:31] + (tm.binop("and", bs[31], tm.const(127, U8)),), 8)
        R = {}
        for t, w in zip(lim, W10):
            R = fadd(R, q.X.form(t), 1 << w)
        q.forms.append(R)
        S = z3.Solver()
        S.add(q.X.facts(q.forms))
        K, rem = z3.Int("K"), z3.Int("rem")
        S.add(q.X.zexpr(R) == c * q.X.zexpr(V) + ref.p * K + rem, rem > 0, rem < ref.p)
        if solve.check(S, "LIA-cex", 60) == z3.sat:
            m = S.model()
            out.append(ell_case(bytes(q.model(m, t) for t in bs)))
    return out


def goal_cmov(ctx):
    mod = module(ctx)
    rs = []
    for b in (0, 1):
        for alias in (False, True):
            a, c = limbvars("a", 10, I32), limbvars("c", 10, I32)

            def setup(ex):
                x = ex.alloc(a, 4)
                return [x, x if alias else ex.alloc(c, 4), tm.const(b, U8)]
            ex, args, r = one(llir.run(mod, {}, setup, "fe25519_cmov"))
            fns = ["cref." + f for f in ex.funcs]
            want = c if b and not alias else a
            got = ex.cells(args[0], 10, 4)
            bad = [tm.cmp("eq", tm.conv(g, I32), w) for g, w in zip(got, want) if g is not w]
            ok = not bad or solve.prove_bv(tm.band(*bad))[0] == "proved"
            rs.append(proved(functions=fns) if ok and (alias or ex.cells(args[1], 10, 4) == c) else unknown("flag %d" % b, functions=fns))
    return combine(rs)


def goal_pred(ctx, n):
    """the predicates over the bytes that pack yields"""
    mod = module(ctx)
    if n not in mod.funcs:
        return unknown("no such function")
    two = n == "fe25519_iseq"
    x, y = fv("x"), fv("y")
    R = CRun(mod, 1)
    ps = []
    bx = {"fe25519_isone": scale(2.0), "fe25519_iseq": scale(1.1)}.get(n, PACKIN)
    ex, args, r = one(llir.run(mod, R.hooks, lambda ex: [R.fe(ex, v, bx) for v in ([x, y] if two else [x])], n))
    fns = R.fns(ex)
    vals = {}
    for u in tm.subterms([r]):
        if u.op == "fby":
            vals.setdefault(u.args[0], {})[u.args[1]] = u
    bv = {v: tuple(tm.var("by%d_%d" % (k, i), U8) for i in range(32)) for k, v in enumerate(vals)}
    r = ff.fsubst([r], {u: bv[v][i] for v, d in vals.items() for i, u in d.items()})[0]
    keys = list(bv)
    if len(keys) != 1:
        return unknown("shape", functions=fns)
    k = keys[0]
    zero = tm.band(*[tm.cmp("eq", t, tm.const(0, U8)) for t in bv[k]])
    if n == "fe25519_isnegative" and k is x:
        want = tm.cmp("eq", tm.binop("and", bv[k][0], tm.const(1, U8)), tm.const(1, U8))
    elif n == "fe25519_iszero" and k is x:
        want = zero
    elif n == "fe25519_isone" and c02.zero_iff(k, S_(x, ONE)) or two and c02.zero_iff(k, S_(x, y)):
        want = zero
    else:
        return unknown("shape: encodes %s" % tm.show(k, 3), functions=fns)
    good = tm.cmp("eq", tm.conv(r, I32), tm.b2i(want, I32))
    s, env = solve.prove_bv(good)
    if s == "proved":
        return proved(functions=fns)
    cases = []
    for _ in range(24):
        if env is None:
            break
        vs = [env.get(t, env.get(t.args[0], 0)) for t in bv[k]]
        cases += y_cases(sum(x << (8 * i) for i, x in enumerate(vs)) % ref.p)
        good = tm.bor(good, tm.band(*[tm.cmp("eq", t, tm.const(x, U8)) for t, x in zip(bv[k], vs)]))
        env = solve.prove_bv(good)[1]
    return dict(status="unknown", detail=s, functions=fns, cases=cases)


def y_cases(y):
    """encodings whose decoding has this y coordinate"""
    ok, s = ref.sqrt_ratio((1 - y) % ref.p, (1 + y) % ref.p)
    return [unpack_case(ref.b32(x % ref.p)) for x in (s, -s)] if ok else []


def goal_root(ctx, n):
    mod = module(ctx)
    if n not in mod.funcs:
        return unknown("no such function")
    m = {"fe25519_invsqrt": "InvSqrt", "fe25519_invsqrti": "InvSqrtI"}[n]
    rs = []
    for alias in (False, True):
        R = CRun(mod, 2)

        def setup(ex):
            a = R.fe(ex, c03.A, PACKIN)
            return [a if alias else junk(ex), a]
        paths = llir.run(mod, R.hooks, setup, n)
        fns = R.fns(paths[0][1])
        v, fl = None, {}
        for cond, ex, args, r in paths:
            if not alias and R.get(ex, args[1]) is not c03.A:
                return unknown("operand changed", functions=fns)
            x = R.get(ex, args[0], MBOX)
            cond = fev.boolnf(cond)
            v = x if v is None else fev.fite(cond, x, v)
            if m == "InvSqrtI":
                for k, g in fev.flag(r).items():
                    g = tm.band(cond, g)
                    fl[k] = tm.bor(fl[k], g) if k in fl else g
        bad = c03.sqrti_bad(m, v, fl.get(1, FALSE) if m == "InvSqrtI" else TRUE, [g for k, g in fl.items() if k not in (0, 1)], [fev.boolnf(o) for o in R.obl])
        rs.append(unknown(bad[0], functions=fns) if bad else proved(functions=fns, sub=4))
    return combine(rs)


# ---- points ------------------------------------------------------------------------

GOPS = {"group_ge_add": "add", "group_ge_double": "dbl", "group_ge_negate": "neg"}


def goal_op(ctx, n):
    from . import c08
    mod = module(ctx)
    if n not in mod.funcs:
        return unknown("no such function")
    op = GOPS[n]
    rs = []
    for pat in ([(0, 1, 2), (0, 0, 2), (0, 1, 0), (0, 1, 1), (0, 0, 0)] if op == "add" else [(0, 1), (0, 0)]):
        R = CRun(mod)
        ps = {j: Pt("p%d" % j) for j in pat}

        def setup(ex):
            objs = {j: R.ge(ex, ps[j].rep("EP")) for j in ps}
            if 0 not in pat[1:]:
                objs[0] = junk(ex, 40)
            return [objs[j] for j in pat]

        def outs(ex, args, r):
            for j, a in zip(pat, args):
                expect(j == pat[0] or R.getge(ex, a) == ps[j].rep("EP"), "operand changed")
            return R.getge(ex, args[0], PBOX)
        fns, val = merged(mod, R, setup, n, outs)
        ins = [ps[j] for j in pat[1:]]
        eqs, nes = [], []
        for p in {id(p): p for p in ins}.values():
            eqs += p.hyps()
            nes += p.nes()
        if op != "neg":
            eqs += complete(ins[0], ins[-1])
        num = c08.expected(op, ins)
        f = fev.Split(eqs, nes).run(list(val), lambda c, terms, bools, path: matches(c, "EP", tuple(terms), num))
        rs.append(unknown("%s: %s" % (pat, f[0]), functions=fns) if f else proved(functions=fns, sub=4))
    return combine(rs)


def goal_gpack(ctx):
    mod = module(ctx)
    R = CRun(mod)
    P = Even("p")

    def outs(ex, args, r):
        expect(R.getge(ex, args[1]) == P.rep("EP"), "operand changed")
        s = R.frombytes(ex.cells(args[0], 32, 1))
        expect(s.op != "fb", "the bytes are not those of a field element")
        return [s]
    fns, (s,) = merged(mod, R, lambda ex: [junk(ex, 32, 1), R.ge(ex, P.rep("EP"))], "group_ge_pack", outs)
    sp = fev.Split(P.hyps(), [P.z], lemmas=lemmas(P), samples=envs(P))
    fails = sp.run([s], leaf_encode(P))
    if not fails:
        return proved(functions=fns, sub=sp.leaves)
    return dict(status="unknown", detail=fails[0], functions=fns, cases=[pack_case(Q, z) for Q, z in concretes(sp, P)])


def goal_gunpack(ctx):
    mod = module(ctx)
    if ff.fsq(I_) is not FALSE:
        return unknown("i is a square")
    R = CRun(mod)
    bs = bytesvars("b", 32)
    S = R.frombytes(bs)

    def outs(ex, args, r):
        expect(ex.cells(args[1], 32, 1) == bs, "input changed")
        return list(R.getge(ex, args[0], PBOX)) + [fev.flag(r)]
    fns, val = merged(mod, R, lambda ex: [junk(ex, 40), ex.alloc(bs, 1)], "group_ge_unpack", outs)
    f = val.pop()
    if set(k for k, c in f.items() if c is not FALSE) - {0, -1}:
        return unknown("result neither 0 nor -1", functions=fns)
    r = tm.mk("root", ("r", fmuls(c11.vpoly(S), sq(A_(ONE, sq(S))))), FTY)
    samples = [{S: s % ref.p} for s in [0, 1, ref.p - 1, 2, 4, ref.I, ref.p - ref.I, 3] + [int.from_bytes(ref.encode(ref.mul(k, ref.BASE)), "little") for k in range(1, 12)] + [7**j for j in range(2, 40)]]
    sp = fev.Split(samples=samples)
    fails = sp.run(list(val) + [r], c11.leaf_decode(S), [f.get(0, FALSE), TRUE])
    if not fails:
        return proved(functions=fns, sub=sp.leaves)
    return dict(status="unknown", detail=fails[0], functions=fns, cases=[unpack_case(ref.b32(e.get(S, 0))) for e in sp.cex])


def goal_elligator(ctx):
    mod = module(ctx)
    rs = []
    for alias in (False, True):
        R = CRun(mod)
        t = fv("t")

        def setup(ex):
            if alias:
                g = R.ge(ex, (t, fv("o1"), fv("o2"), fv("o3")))
                return [g, llir.P(g.obj, 0)]
            return [junk(ex, 40), R.fe(ex, t, XBOX)]

        def outs(ex, args, r):
            expect(alias or R.get(ex, args[1]) is t, "operand changed")
            return R.getge(ex, args[0], PBOX)
        fns, val = merged(mod, R, setup, "group_ge_elligator", outs)
        val = tuple(val)
        if rs and val == first:
            rs.append(proved(functions=fns))
            continue
        first = val
        rs.append(c13.check_map(B10, "cref", fns, t, val, "EP", lambda v: [ell_case(ref.b32(v))]))
    return combine(rs)


# ---- scalars -------------------------------------------------------------------------

def goal_sunpack(ctx):
    mod = module(ctx)
    bs = bytesvars("b", 32)
    out = None
    for cond, ex, args, r in llir.run(mod, {}, lambda ex: [junk(ex, 32), ex.alloc(bs, 1)], "group_scalar_unpack"):
        fns = ["cref." + f for f in ex.funcs]
        if ex.cells(args[1], 32, 1) != bs:
            return unknown("input changed", functions=fns)
        x = [tm.conv(t, U32) for t in ex.cells(args[0], 32, 4)]
        out = x if out is None else [tm.ite(cond, a, b) for a, b in zip(x, out)]
    bv = solve.BV()
    res = [bv.t(tm.conv(t, U32)) for t in out]
    v = z3.Concat(*[bv.t(b) for b in bs[::-1]]) & z3.BitVecVal(2**253 - 1, 256)
    l = z3.BitVecVal(ref.l, 256)
    # steps: the borrow after byte i is (v mod 2^(8i+8)) < (l mod 2^(8i+8))
    s = z3.SolverFor("QF_BV")
    bad = [z3.ULE(z3.BitVecVal(256, 32), x) for x in res]
    want = z3.If(z3.ULT(v, l), v, v - l)
    got = z3.Concat(*[z3.Extract(7, 0, x) for x in res[::-1]])
    s.add(z3.Or(got != want, *bad))
    r = solve.check(s, "BV", 200)
    if r == z3.unsat:
        return proved(functions=fns, sub=33)
    cases = []
    if r == z3.sat:
        env = solve.model_env(bv, s.model())
        cases = [scalar_case(bytes(env.get("b_%d" % i, 0) for i in range(32)))]
    return dict(status="refuted" if r == z3.sat else "unknown", detail=str(r), functions=fns, cases=cases)


def goal_spack(ctx):
    mod = module(ctx)
    vs = bytesvars("v", 32)
    cells = [tm.conv(b, U32) for b in vs]
    ex, args, r = one(llir.run(mod, {}, lambda ex: [junk(ex, 32, 1), ex.alloc(cells, 4)], "group_scalar_pack"))
    fns = ["cref." + f for f in ex.funcs]
    bad = [tm.cmp("eq", tm.conv(g, U8), w) for g, w in zip(ex.cells(args[0], 32, 1), vs)]
    ok = solve.prove_bv(tm.band(*bad))[0] == "proved" and ex.cells(args[1], 32, 4) == tuple(cells)
    return proved(functions=fns) if ok else unknown("bytes", functions=fns)


class Rng:
    def __init__(self):
        self.cuts = {}

    def rangeof(self, t):
        return (-40, 40) if t.op == "var" else tm.rng(t.ty)


def goal_window(ctx):
    mod = module(ctx)
    n = "scalar_window5"
    if n not in mod.funcs:
        return unknown("no such function")
    vs = bytesvars("s", 32)
    cells = [tm.conv(b, U32) for b in vs]
    ex, args, r = one(llir.run(mod, {}, lambda ex: [junk(ex, 51, 1), ex.alloc(cells, 4)], n))
    fns = ["cref." + f for f in ex.funcs]
    if ex.cells(args[1], 32, 4) != tuple(cells):
        return unknown("operand changed", functions=fns)
    d = [tm.conv(t, I8) for t in ex.cells(args[0], 51, 1)]
    F = grp.Form()
    for i, t in enumerate(d):
        F = F + grp.Form(0, {t: 32**i})
    C = grp.Chain(Rng(), F, vs, 8, 256, [tm.cmp("lt", vs[31], tm.const(32, U8))])
    res = C.run()
    if res is not None:
        cases = []
        if res[1]:
            cases = mult_cases([sum(res[1].get("s_%d" % i, 0) << (8 * i) for i in range(32))])
        return dict(status="unknown", detail="digits: %s" % res[0], functions=fns, cases=cases)
    for t in d:
        if C.ask(C.bv.t(tm.band(tm.cmp("le", tm.const(-16, I8), t), tm.cmp("le", t, tm.const(16, I8))))) != z3.unsat:
            return unknown("digit range", functions=fns)
    return proved(functions=fns, sub=C.n)


def goal_choose(ctx):
    mod = module(ctx)
    if "choose_t" not in mod.funcs:
        return unknown("no such function")
    fns = []
    for b in range(-16, 17):
        R = CRun(mod)
        xs = [tuple(fv("p%d%s" % (j, c)) for c in "xyzt") for j in range(17)]

        def setup(ex):
            pre = ex.alloc([l for x in xs for v, bx in zip(x, PBOX) for l in R.limbs(v, bx)], 4)
            return [junk(ex, 40), pre, tm.const(b, I8)]
        ex, args, r = one(llir.run(mod, R.hooks, setup, "choose_t"))
        fns = R.fns(ex)
        x = xs[abs(b)]
        want = x if b >= 0 else (N_(x[0]), x[1], x[2], N_(x[3]))
        if R.getge(ex, args[0], PBOX) != want:
            return unknown("digit %d" % b, functions=fns)
    return proved(functions=fns, sub=33)


class GForms:
    """points as integer forms: hooks for the point operations"""

    def __init__(self, mod):
        self.d = [tm.var("d%d" % i, I8) for i in range(51)]
        self.hooks = {"group_ge_add": self.add, "group_ge_double": self.dbl, "scalar_window5": self.window, "choose_t": self.choose}
        if set(self.hooks) - set(mod.funcs):
            raise Unsupported("no " + ", ".join(sorted(set(self.hooks) - set(mod.funcs))))
        self.forms, self.used = {}, set()

    def cells(self, F):
        self.forms[F.key()] = F
        return [tm.mk("gl", (F.key(), i), I32) for i in range(40)]

    def get(self, ex, p):
        c = ex.cells(p, 40, 4)
        if all(t.op == "gl" and t.args[1] == i and t.args[0] == c[0].args[0] for i, t in enumerate(c)):
            return self.forms[c[0].args[0]]
        if all(t.op == "c" for t in c):
            v = [B10.value([t.args[0] for t in c[10 * j:10 * j + 10]]) for j in range(4)]
            if v[0] == 0 == v[3] and v[1] == v[2] != 0:
                return grp.Form()
        raise Unsupported("not a point")

    def put(self, ex, p, F):
        ex.put(p, self.cells(F), 4)

    def add(self, ex, a):
        self.put(ex, a[0], self.get(ex, a[1]) + self.get(ex, a[2]))

    def dbl(self, ex, a):
        self.put(ex, a[0], self.get(ex, a[1]).scale(2))

    def window(self, ex, a):
        if ex.cells(a[1], 32, 4) != self.sc:
            raise Unsupported("recodes something else")
        ex.put(a[0], self.d, 1)

    def choose(self, ex, a):
        for j in range(17):
            if self.get(ex, llir.P(a[1].obj, a[1].off + 160 * j)).key() != grp.Form(j).key():
                raise Unsupported("table entry %d" % j)
        if a[2] not in self.d:
            raise Unsupported("digit")
        self.put(ex, a[0], grp.Form(0, {a[2]: 1}))


def goal_mult(ctx):
    mod = module(ctx)
    fns = []
    for alias in (False, True):
        G = GForms(mod)
        G.sc = tuple(tm.conv(b, U32) for b in bytesvars("s", 32))

        def setup(ex):
            q = ex.alloc(G.cells(grp.Form(1)), 4)
            return [q if alias else junk(ex, 40), q, ex.alloc(G.sc, 4)]
        ex, args, r = one(llir.run(mod, G.hooks, setup, "group_ge_scalarmult"))
        fns = sorted("cref." + f for f in ex.funcs | set(G.hooks))
        if ex.cells(args[2], 32, 4) != G.sc or not alias and G.get(ex, args[1]).key() != grp.Form(1).key():
            return unknown("operand changed", functions=fns)
        F = G.get(ex, args[0])
        # the form must be sum 32^i d_i (the recoding goal shows that this is the scalar)
        s = z3.Solver()
        ds = [z3.Int("d%d" % i) for i in range(51)]
        s.add(F.c + z3.Sum([z3.IntVal(k) * z3.Int(t.args[0]) for t, k in F.d.items()] or [z3.IntVal(0)]) != z3.Sum([32**i * d for i, d in enumerate(ds)]))
        if solve.check(s, "LIA", 20) != z3.unsat:
            return unknown("the multiple", functions=fns, cases=mult_cases([1, 2, 31, 32, ref.l - 1]))
    return proved(functions=fns, sub=2)


def goals(ctx):
    module(ctx)
    out = [(n, goal_arith, dict(n=n, _w=9 if "mul" in n or "sq" in n else 0)) for n in ARITHF]
    out += [("fe25519_unpack", goal_unpack, {}), ("fe25519_pack", goal_pack, dict(_w=8)), ("fe25519_cmov", goal_cmov, {})]
    out += [(n, goal_pred, dict(n=n)) for n in ("fe25519_iszero", "fe25519_isnegative", "fe25519_isone", "fe25519_iseq")]
    out += [(n, goal_root, dict(n=n)) for n in ("fe25519_invsqrt", "fe25519_invsqrti")]
    out += [(n, goal_op, dict(n=n)) for n in GOPS]
    out += [("group_ge_pack", goal_gpack, {}), ("group_ge_unpack", goal_gunpack, {}), ("group_ge_elligator", goal_elligator, dict(_w=5)),
            ("group_scalar_unpack", goal_sunpack, {}), ("group_scalar_pack", goal_spack, {}), ("scalar_window5", goal_window, {}), ("choose_t", goal_choose, {}),
            ("group_ge_scalarmult", goal_mult, {})]
    from . import c08
    out += [("lemma: denominators do not vanish", c08.goal_lemma, {}), ("lemma: 1-y^2 is a square on even points", goal_lemma, {}), ("lemma: the encoding is unique", goal_unique, {})]
    return out


# ---- replay ----------------------------------------------------------------------------

FORM = "symbolic execution of the LLVM IR (clang -O0) of /repo's current C source; "


def drivers(ctx):
    import json
    ctx.drivers = {"cref": build.Driver(build.driver("", ctx.work, json.load(open(os.path.join(ctx.work, "ssa_.json"))), cref=True))}


class Prog:
    """a program for the driver"""

    def __init__(self):
        self.vars, self.steps, self.exp, self.n = [], [], {}, 0

    def new(self, ty, val=None):
        self.n += 1
        self.vars.append(["v%d" % self.n, ty] + ([val] if val is not None else []))
        return "v%d" % self.n

    def do(self, m, *a, r=None):
        self.steps.append({"m": m, "a": list(a), "r": [r] if r else []})
        return r

    def fe(self, b):
        f = self.new("CF")
        self.do("CF.Unpack", f, self.new("b32", b.hex()))
        return f

    def ge(self, P, z=1):
        """a point with the given coordinates, written through its accessors"""
        g = self.new("CG")
        for c, v in zip("XYZT", (P[0] * z, P[1] * z, z, P[0] * P[1] * z)):
            self.n += 1
            r = "c%d" % self.n
            self.do("CG." + c, g, r=r)
            self.do("CF.Unpack", r, self.new("b32", ref.b32(v % ref.p).hex()))
        return g

    def packed(self, g, want):
        o = self.new("b32", "aa" * 32)
        self.do("CG.Pack", g, o)
        self.exp[o] = ["hex", want.hex()]

    def sc(self, b):
        s = self.new("CS")
        self.do("CS.Unpack", s, self.new("b32", b.hex()))
        return s

    def point(self, g, P):
        self.exp[g] = ["point", [str(x) for x in P]]

    def case(self, note):
        return {"tags": ["cref"], "prog": {"vars": self.vars, "steps": self.steps, "out": list(self.exp)}, "expect": self.exp, "note": note}


def fe_cases(b):
    p = Prog()
    v = int.from_bytes(b, "little") % 2**255 % ref.p
    f = p.fe(b)
    p.exp[f] = ["fe", str(v)]
    o = p.new("b32", "aa" * 32)
    p.do("CF.Pack", f, o)
    p.exp[o] = ["hex", ref.b32(v).hex()]
    return [p.case("Fe25519 Unpack and Pack of %s" % b.hex())]


def pack_case(Q, z):
    p = Prog()
    g = p.ge(Q, z)
    p.packed(g, ref.encode(Q))
    p.point(g, Q)
    return p.case("GroupGe.Pack of %s (scale %d)" % (Q, z))


def unpack_case(b):
    p = Prog()
    P = ref.decode(ref.b32(int.from_bytes(b, "little") % 2**255 % ref.p))
    g, i = p.ge((5, 7)), p.new("b32", b.hex())
    p.do("CG.Unpack", g, i, r="ret")
    p.exp.update({"ret": ["int", 0 if P else -1], i: ["hex", b.hex()]})
    if P:
        p.point(g, P)
        p.packed(g, ref.b32(int.from_bytes(b, "little") % 2**255 % ref.p))
    else:
        p.exp[g] = ["fes", [0] * 4]
    return p.case("GroupGe.Unpack of %s" % b.hex())


def ell_case(b, alias=False):
    p = Prog()
    P = ref.elligator_fe(int.from_bytes(b, "little") % 2**255 % ref.p)
    if alias:
        g = p.ge((5, 7))
        r = p.do("CG.X", g, r="x")
        p.do("CF.Unpack", r, p.new("b32", b.hex()))
    else:
        g, r = p.ge((5, 7)), p.fe(b)
    p.do("CG.Elligator", g, r)
    p.point(g, P)
    if not alias:
        p.exp[r] = ["fe", str(int.from_bytes(b, "little") % 2**255 % ref.p)]
    p.packed(g, ref.encode(P))
    return p.case("GroupGe.Elligator of %s" % b.hex())


def scalar_case(b):
    p = Prog()
    v = int.from_bytes(b, "little") % 2**253 % ref.l
    s = p.sc(b)
    o = p.new("b32", "aa" * 32)
    p.do("CS.Pack", s, o)
    p.exp.update({s: ["cs", str(v)], o: ["hex", ref.b32(v).hex()]})
    return p.case("GroupScalar Unpack and Pack of %s" % b.hex())


def mult_case(P, z, v, alias=False):
    p = Prog()
    q = p.ge(P, z)
    r = q if alias else p.ge((5, 7))
    s = p.sc(ref.b32(v % 2**256))
    p.do("CG.ScalarMult", r, q, s)
    v = v % 2**253 % ref.l
    p.point(r, ref.mul(v, P))
    p.exp[s] = ["cs", str(v)]
    if not alias:
        p.point(q, P)
    return p.case("ScalarMult of %s by %d" % (P, v))


def mult_cases(vs):
    return [mult_case(P, z, v) for v in vs for P, z in ((ref.BASE, 1), (ref.add(ref.mul(77, ref.BASE), ref.TORSION4[2]), 9))]


def op_case(P, Q, z, w, pat):
    p = Prog()
    a = p.ge(P, z)
    b = a if pat in ("d", "da") else p.ge(Q, w)
    if pat in ("d", "da"):
        Q = P
    r = a if pat in ("ra", "da") else b if pat == "rb" else p.ge((5, 7))
    p.do("CG.Add", r, a, b)
    p.point(r, ref.add(P, Q))
    p.packed(r, ref.encode(ref.add(P, Q))) if ref.is_sq(1 - ref.add(P, Q)[1] ** 2) else None
    for g, X in ((a, P), (b, Q)):
        if g != r:
            p.point(g, X)
    a2, a3 = p.ge(P, z), p.ge(P, z)
    r2, r3 = (a2, a3) if pat in ("ra", "da") else (p.ge((5, 7)), p.ge((5, 7)))
    p.do("CG.Double", r2, a2)
    p.do("CG.Neg", r3, a3)
    p.point(r2, ref.add(P, P))
    p.point(r3, (-P[0] % ref.p, P[1]))
    if r2 != a2:
        p.point(a2, P)
        p.point(a3, P)
    return p.case("group operations on %s and %s (scales %d, %d, aliasing %s)" % (P, Q, z, w, pat))


def chain_case(r, n=12):
    """a history of operations"""
    p = Prog()
    gs = []
    for _ in range(3):
        b = ref.b32(r.randrange(2**255))
        g = p.new("CG")
        p.do("CG.Elligator", g, p.fe(b))
        gs.append([g, ref.elligator_fe(int.from_bytes(b, "little") % ref.p)])
    k = r.randrange(ref.l)
    g = p.new("CG")
    p.do("CG.Unpack", g, p.new("b32", ref.encode(ref.mul(k, ref.BASE)).hex()))
    gs.append([g, ref.decode(ref.encode(ref.mul(k, ref.BASE)))])
    for _ in range(n):
        x, y, t = r.choice(gs), r.choice(gs), r.choice(gs)
        op = r.choice(["Add", "Add", "Double", "Neg", "Neg", "ScalarMult"])
        if op == "Add":
            p.do("CG.Add", t[0], x[0], y[0])
            t[1] = ref.add(x[1], y[1])
        elif op == "ScalarMult":
            v = r.randrange(ref.l)
            p.do("CG.ScalarMult", t[0], x[0], p.sc(ref.b32(v)))
            t[1] = ref.mul(v, x[1])
        else:
            p.do("CG." + op, t[0], x[0])
            t[1] = ref.add(x[1], x[1]) if op == "Double" else (-x[1][0] % ref.p, x[1][1])
    for g, P in gs:
        p.point(g, P)
        p.packed(g, ref.encode(P))
    return p.case("history of operations")


def pool(ctx):
    r = rng(ctx, "c19")
    p = ref.p
    out = []
    raws = raw_fe_bytes(ctx, 8) + [ref.b32(2**255 - 1 - k) for k in range(40)] + [ref.b32(p - 1 - 2**k) for k in range(0, 255, 3)] + [ref.b32(2**k) for k in range(0, 256)]
    raws += [ref.b32(2**k - 1) for k in range(1, 256, 3)] + [ref.b32(sum(2**w for w in W10) * k % 2**255) for k in (1, 2**24, 2**24 - 1, 2**25 - 1, 2**25)]
    for b in raws:
        out += fe_cases(b)
    for b in c11.inputs(ctx):
        out.append(unpack_case(b))
    for t in c13.TS + c13.SPECIAL + [r.randrange(p) for _ in range(60)]:
        out.append(ell_case(ref.b32(t % p)))
    out += [ell_case(b) for b in raws[:60:3]] + [ell_case(ref.b32(t % p), True) for t in c13.TS[:12]]
    for v in edge_scalars(ctx, 20) + [ref.l, ref.l + 1, 2 * ref.l - 1, 2**253 - 1, 2**253, 2**256 - 1, 2**253 + ref.l, ref.l - 2**8, ref.l + 2**200] + [ref.l ^ (1 << k) for k in range(0, 253, 4)]:
        out.append(scalar_case(ref.b32(v % 2**256)))
    zs = scales(ctx)
    ev = sample_points(ctx, 10, even=True) + special_points(True)
    for P in ev:
        for t in ref.TORSION4:
            out.append(pack_case(ref.add(P, t), r.choice(zs)))
    allp = sample_points(ctx, 6)
    for P, z in hint_reps(ctx, True):
        out.append(pack_case(P, z))
        out.append(op_case(P, r.choice(allp), z, r.choice(zs), ""))
    for v in getattr(ctx, "hints", []):
        v %= p
        out += y_cases(v) + y_cases(-v % p) + [unpack_case(ref.b32(v)), ell_case(ref.b32(v))] + fe_cases(ref.b32(v))
    for P in allp:
        for Q in [P, (-P[0] % p, P[1]), (0, 1), r.choice(allp), r.choice(allp)]:
            out.append(op_case(P, Q, r.choice(zs), r.choice(zs), r.choice(["", "ra", "rb", "d", "da"])))
    for k in range(0, 255, 1 if ctx.thorough else 5):
        out += y_cases(2**k) + y_cases(p - 2**k) + y_cases(2**k - 1)
    for j in range(51):
        for d in range(1, 32) if j < 2 else (1, 16, 15, 17, 31, r.randrange(1, 32)):
            v = d << (5 * j)
            if v < 2**253:
                out.append(mult_case(ref.BASE, 1, v))
    for v in edge_scalars(ctx, 20):
        P = r.choice(allp)
        out.append(mult_case(P, r.choice(zs), v, r.random() < 0.3))
    out += [chain_case(r) for _ in range(40 if not ctx.thorough else 400)]
    return out
