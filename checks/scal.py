"""Scalars: C04-C07."""
from .common import *

OPS = {"Add": 2, "Sub": 2, "Neg": 1, "Mul": 2, "Square": 1, "MulAdd": 3, "MulSub": 3}
SPEC = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Neg": lambda a: -a, "Mul": lambda a, b: a * b,
        "Square": lambda a: a * a, "MulAdd": lambda a, b, c: a * b + c, "MulSub": lambda a, b, c: a * b - c}


def asked(ctx):
    """canonical scalars the goals asked for"""
    return [v for v in getattr(ctx, "hints", []) if v < ref.l]


def case_op(fn, vals, note=""):
    n = len(vals)
    names = ["x%d" % i for i in range(n)]
    exp = {"r": ["sc", str(SPEC[fn](*vals) % ref.l)]}
    for nm, v in zip(names, vals):
        exp[nm] = ["sc", str(v)]
    return {"prog": {"vars": [["r", "S", limbs32(12345)]] + [[nm, "S", limbs32(v)] for nm, v in zip(names, vals)],
                     "steps": [{"m": "S." + fn, "a": ["r"] + names}], "out": ["r"] + names},
            "expect": exp, "note": "Scalar.%s(%s)" % (fn, ", ".join(map(str, vals))), "tags": ["", "forcegeneric"]}


def sym_scalar(ex, st, name, boxes):
    vs = limbvars(name, 8, U32)
    boxes[vs[7]] = (0, 2**28)
    return vs, Ptr(ex.new(st, vs, name))


def goal_op(ctx, fn, consts=None):
    """identity modulo l and canonical result; consts fixes some operands (exact counterexample search)"""
    P = ctx.progs[""]
    ar = OPS[fn]
    ex, st = harness(P)
    boxes, ins, ptrs = {}, [], []
    for a in range(ar):
        vs, p = sym_scalar(ex, st, "x%d" % a, boxes)
        ins.append(vs)
        ptrs.append(p)
    old = limbvars("r", 8, U32)
    out = Ptr(ex.new(st, old, "r"))
    st, _ = ex.call1(st, S(fn), [out] + ptrs)
    res = ex.load(st, out)
    fns = fnames(ex)
    if ex.panics or ex.obligations:
        return unknown("panic paths", functions=fns)
    if fn in ("Add", "Sub", "Neg"):
        q = TQ(boxes)
        V = [q.val(vs, 32) for vs in ins]
        R = q.val(res, 32)
        sg = {"Add": (1, 1), "Sub": (1, -1), "Neg": (-1,)}[fn]

        def ok(z):
            e = z(R) - z3.Sum([k * z(v) for k, v in zip(sg, V)])
            return z3.And(z(R) >= 0, z(R) < ref.l, z3.Or(*[e == k * ref.l for k in (-1, 0, 1)]))
        s, m = q.prove(ok, lambda z: [z3.And(z(v) >= 0, z(v) < ref.l) for v in V], timeout=200)
        if s == "proved":
            return proved(functions=fns, sub=2)
        cases = []
        if m is not None:
            vals = [sum(q.model(m, t) << (32 * i) for i, t in enumerate(vs)) for vs in ins]
            cases = [case_op(fn, vals)]
        return dict(status="refuted" if s == "failed" else "unknown", detail=s, cases=cases, functions=fns)

    def mk(L):
        V = []
        for vs in ins:
            f = {}
            for i, v in enumerate(vs):
                f = padd(f, L.poly(v), 1 << (32 * i))
            V.append(f)
        R = {}
        for i in range(8):
            R = padd(R, L.poly(res[i]), 1 << (32 * i))
        sp = L.pmul(V[0], V[1 if fn != "Square" else 0])
        if fn == "MulAdd":
            sp = padd(sp, V[2])
        if fn == "MulSub":
            sp = padd(sp, V[2], -1)
        return padd(R, sp, -1)
    s1, L, X, mod = solve.prove_congruent(boxes, mk, ref.l)
    R = {}
    for i in range(8):
        R = fadd(R, X.form(res[i]), 1 << (32 * i))
    s2, _ = prove_range_cone(X, R, 0, ref.l - 1)
    if s1 == "proved" and s2 == "proved":
        return proved(functions=fns, sub=2)
    cases = search_nonlinear(ctx, fn, ins, res, boxes)
    cons = [tm.cmp("lt", vs[7], tm.const(1 << 28, U32)) for vs in ins]
    cases += [case_op(fn, v) for v in branch_inputs(ex, [(vs, 32, ref.l) for vs in ins], cons)]
    return dict(status="refuted" if cases else "unknown", detail="identity %s, canonical %s" % (s1, s2), cases=cases, functions=fns)


subst = tm.subst


def search_nonlinear(ctx, fn, ins, res, boxes, tmax=60):
    """exact counterexamples with all operands but one constant"""
    cases = []
    t0 = time.time()
    ar = len(ins)
    l = ref.l
    specials = [1, l - 1, 2**252 - 1, 2**21 - 1, 2**252, 3]
    combos = []
    for free in range(ar):
        if fn == "Square":
            break
        for k in specials:
            for k2 in ((0, l - 1) if ar == 3 else (0,)):
                combos.append((free, k, k2))
    for free, k, k2 in combos:
        if time.time() - t0 > tmax:
            break
        env = {}
        fixed = {}
        for a in range(ar):
            if a == free:
                continue
            v = k2 if a == 2 else k
            if a == 0 and free == 2 and ar == 3:
                v = k
            if a == 1 and free == 2:
                v = l - 1
            fixed[a] = v
            for i, t in enumerate(ins[a]):
                env[t] = (v >> (32 * i)) & 0xffffffff
        r2 = subst(res, env)
        q = TQ(boxes)
        V = q.val(ins[free], 32)
        R = q.val(r2, 32)

        def spec(v):
            xs = [fixed.get(a, v) for a in range(ar)]
            return SPEC[fn](*xs)
        c0, c1 = spec(0), spec(1) - spec(0)

        def ok(z):
            K = z3.Int("K")
            return z3.And(z(R) >= 0, z(R) < l, z(R) == c1 * z(V) + c0 + l * K)
        # non-canonical result or a wrong residue
        X = q.X
        facts = X.facts(q.forms)
        s = z3.Solver()
        s.add(facts)
        s.add(X.zexpr(V) < l)
        K, rem = z3.Int("K"), z3.Int("rem")
        s.add(X.zexpr(R) - c1 * X.zexpr(V) - c0 == l * K + rem, rem >= 0, rem < l)
        s.add(z3.Or(rem != 0, X.zexpr(R) >= l))
        if solve.check(s, "LIA", 15) == z3.sat:
            m = s.model()
            v = sum(q.model(m, t) << (32 * i) for i, t in enumerate(ins[free]))
            vals = [fixed.get(a, v) for a in range(ar)]
            cases.append(case_op(fn, vals))
            break
    return cases


def goals_c04(ctx):
    return [("Scalar.%s = spec mod l, canonical, for all operands below l" % fn, goal_op, {"fn": fn, "_w": 5}) for fn in OPS]


def pool_c04(ctx):
    ed = edge_scalars(ctx)
    r = rng(ctx, "c04")
    cases = []
    for fn, ar in OPS.items():
        if ar == 1:
            tup = [(a,) for a in ed]
        elif ar == 2:
            tup = [(a, b) for a in ed[:16] for b in ed[:16]] + [(r.choice(ed), r.choice(ed)) for _ in range(60)]
        else:
            tup = [tuple(r.choice(ed) for _ in range(3)) for _ in range(200)]
        cases += [case_op(fn, t) for t in tup]
    return cases


# ---- C05 ----------------------------------------------------------------------

def case_steps(steps, vars_, expect, note, tags=None):
    return {"prog": {"vars": vars_, "steps": steps, "out": list(expect)}, "expect": expect, "note": note, "tags": tags or ["", "forcegeneric"]}


def case_setbytes(b):
    v = int.from_bytes(b, "little") % 2**253 % ref.l
    return case_steps([{"m": "S.SetBytes", "a": ["s", "x"]}], [["s", "S", limbs32(77)], ["x", "b32", b.hex()]],
                      {"s": ["sc", str(v)], "x": ["hex", b.hex()]}, "Scalar.SetBytes(%s)" % b.hex())


def case_strict(b):
    v = int.from_bytes(b, "little")
    ok = v < ref.l
    return case_steps([{"m": "S.SetBytesStrict", "a": ["s", "x"], "r": ["ok"]}], [["s", "S", limbs32(77)], ["x", "b32", b.hex()]],
                      {"s": ["sc", str(v if ok else 77)], "ok": ["bool", ok], "x": ["hex", b.hex()]}, "Scalar.SetBytesStrict(%s)" % b.hex())


def case_reduced(b):
    v = int.from_bytes(b, "little") % ref.l
    return case_steps([{"m": "S.SetReduced", "a": ["s", "x"]}], [["s", "S", limbs32(77)], ["x", "b64", b.hex()]],
                      {"s": ["sc", str(v)], "x": ["hex", b.hex()]}, "Scalar.SetReduced(%s)" % b.hex())


def case_encode(v):
    h = ref.b32(v).hex()
    return case_steps([{"m": "S.BytesInto", "a": ["s", "x"]}, {"m": "S.Bytes", "a": ["s"], "r": ["y"]},
                       {"m": "S.BigInt", "a": ["s"], "r": ["z"]}, {"m": "S.MarshalBinary", "a": ["s"], "r": ["w", "e"]}],
                      [["s", "S", limbs32(v)], ["x", "b32", "ff" * 32]],
                      {"s": ["sc", str(v)], "x": ["hex", h], "y": ["hex", h], "z": ["raw", str(v)], "w": ["hex", h], "e": ["iserr", False]},
                      "Scalar.BytesInto(%d)" % v)


def goal_setreduced(ctx):
    P = ctx.progs[""]
    ex, st = harness(P)
    tb = bytesvars("t", 64)
    out = Ptr(ex.new(st, limbvars("r", 8, U32), "r"))
    src = Ptr(ex.new(st, tb, "t"))
    st, _ = ex.call1(st, S("SetReduced"), [out, src])
    res = ex.load(st, out)

    def mk(L):
        V, R = {}, {}
        for i, v in enumerate(tb):
            V = padd(V, L.poly(v), 1 << (8 * i))
        for i in range(8):
            R = padd(R, L.poly(res[i]), 1 << (32 * i))
        return padd(R, V, -1)
    s1, L, X, mod = solve.prove_congruent({}, mk, ref.l)
    R = {}
    for i in range(8):
        R = fadd(R, X.form(res[i]), 1 << (32 * i))
    s2, _ = prove_range_cone(X, R, 0, ref.l - 1)
    fns = fnames(ex)
    if s1 == s2 == "proved":
        return proved(functions=fns, sub=2)
    cases = [case_reduced(v.to_bytes(64, "little")) for v, in branch_inputs(ex, [(tb, 8, 2**512)])]
    # exact search: all bytes but a window constant
    t0 = time.time()
    for lo, hi, fill in ((0, 64, None), (0, 32, 0), (0, 32, 255), (32, 64, 0), (32, 64, 255), (24, 40, 0)):
        if time.time() - t0 > 100:
            break
        env = {t: fill for i, t in enumerate(tb) if not lo <= i < hi} if fill is not None else {}
        r2 = subst(res, env)
        q = TQ({})
        tt = subst(tb, env)
        V, R = q.val(tt, 8), q.val(r2, 32)
        s = z3.Solver()
        s.add(q.X.facts(q.forms))
        K, rem = z3.Int("K"), z3.Int("rem")
        s.add(q.X.zexpr(R) - q.X.zexpr(V) == ref.l * K + rem, rem >= 0, rem < ref.l, z3.Or(rem != 0, q.X.zexpr(R) >= ref.l))
        if solve.check(s, "LIA", 30) == z3.sat:
            m = s.model()
            cases.append(case_reduced(bytes(env[t] if t in env else q.model(m, t) for t in tb)))
            break
    return dict(status="refuted" if cases else "unknown", detail="identity %s, canonical %s" % (s1, s2), cases=cases, functions=fns)


def goal_setbytes(ctx, fn="SetBytes"):
    P = ctx.progs[""]
    ex, st = harness(P)
    xb = bytesvars("x", 32)
    old = limbvars("r", 8, U32)
    out = Ptr(ex.new(st, old, "r"))
    src = Ptr(ex.new(st, xb, "x"))
    st, ret = ex.call1(st, S(fn), [out, src])
    res = ex.load(st, out)
    q = TQ({})
    V, R = q.val(xb, 8), q.val(res, 32)
    if fn == "SetBytes":
        T = q.val(xb[:31] + (tm.binop("and", xb[31], tm.const(31, U8)),), 8)

        def ok(z):
            e = z(R) - z(T)
            return z3.And(z(R) >= 0, z(R) < ref.l, z3.Or(e == 0, e == -ref.l))
        bools = ()
    else:
        O = q.val(old, 32)

        def ok(z):
            acc = q.X.zbool(ret)
            return z3.And(acc == (z(V) < ref.l), z3.Implies(acc, z(R) == z(V)), z3.Implies(z3.Not(acc), z(R) == z(O)))
        bools = (ret,)
    s, m = q.prove(ok, timeout=150, bools=bools)
    fns = fnames(ex)
    if s == "proved":
        return proved(functions=fns)
    cases = []
    if m is not None:
        b = bytes(q.model(m, t) for t in xb)
        cases = [case_setbytes(b) if fn == "SetBytes" else case_strict(b)]
    return dict(status="refuted" if s == "failed" else "unknown", detail=s, cases=cases, functions=fns)


def goal_encode(ctx, fn):
    """bytes = limbs, and decoding the encoding is the identity"""
    P = ctx.progs[""]
    ex, st = harness(P)
    vs = limbvars("s", 8, U32)
    sp = Ptr(ex.new(st, vs, "s"))
    if fn == "BytesInto":
        bp = Ptr(ex.new(st, bytesvars("o", 32), "o"))
        st, _ = ex.call1(st, S(fn), [sp, bp])
        out = ex.load(st, bp)
    else:
        st, r = ex.call1(st, S(fn), [sp])
        if isinstance(r, tuple):
            if r[1] is not None:
                return unknown("error value", functions=fnames(ex))
            r = r[0]
        out = tuple(ex.sl_list(st, r))
    if len(out) != 32 or not all(isinstance(t, tm.T) for t in out):
        return unknown("result shape", functions=fnames(ex))
    goal = []
    for i in range(32):
        goal.append(tm.cmp("eq", out[i], tm.conv(tm.shift("shr", vs[i // 4], tm.const(8 * (i % 4), U64)), U8)))
    s, env = solve.prove_bv(tm.band(*goal))
    if s == "proved":
        return proved(functions=fnames(ex), sub=32)
    cases = []
    if env:
        v = sum(env.get(t, 0) << (32 * i) for i, t in enumerate(vs))
        cases = [case_encode(v % ref.l)]
    return dict(status="refuted" if s == "failed" else "unknown", detail=s, cases=cases, functions=fnames(ex))


def capture(names, log):
    """hooks that record the arguments of the named functions instead of executing them"""
    def mkh(n):
        def h(ex, st, args, ins):
            log.append((n, args, st))
            fresh = tuple(tm.var("cap%d_%d" % (len(log), i), U32) for i in range(8))
            cap = args[1]
            vals = ex.load(st, cap)
            ex.store(st, args[0], fresh)
            st.ghost["cap"] = (n, vals, fresh, args[0])
            return args[0]
        return h
    return {n: mkh(n) for n in names}


def goal_derive(ctx, fn, n):
    """the 64 hash (or random) bytes reach the scalar: result = bytes mod l"""
    P = ctx.progs[""]
    from symgo import stdlib
    log = []
    ex, st = harness(P, capture([S("SetReduced")], log))
    out = Ptr(ex.new(st, limbvars("r", 8, U32), "r"))
    if fn == "Rand":
        args = [out]
    else:
        buf = bytesvars("m", n)
        args = [out, Slice(ex.new(st, buf, "m"), (), 0, n, n)]
    st, _ = ex.call1(st, S(fn), args)
    res = ex.load(st, out)
    fns = fnames(ex) + [S("SetReduced")]
    if fn == "Rand":
        want = [tm.var("rand_%d" % i, U8) for i in range(64)]
    else:
        want = list(stdlib.hashbytes("sha512", 64, buf))
    if fn == "DeriveShort":
        goal = [tm.cmp("eq", res[i], tm.const(0, U32)) for i in range(4, 8)]
        for i in range(16):
            goal.append(tm.cmp("eq", tm.conv(tm.shift("shr", res[i // 4], tm.const(8 * (i % 4), U64)), U8), want[i]))
    else:
        cap = st.ghost.get("cap")
        if not cap or len(log) != 1 or cap[3] != out or res != cap[2]:
            return dict(status="unknown", detail="does not end in SetReduced", functions=fns, cases=derive_inputs(fn, n, list(res)))
        goal = [tm.cmp("eq", a, b) for a, b in zip(cap[1], want)]
        if len(cap[1]) != 64:
            return unknown("shape", functions=fns)
    # the only panic allowed is a failing random source
    okg = [g for g, m, f in ex.panics]
    s, env = solve.prove_bv(tm.band(*goal))
    if fn == "Rand":
        for g in okg:
            s2, _ = solve.prove_bv(tm.bnot(tm.band(g, tm.var("rand_ok_0", BOOL))))
            if s2 != "proved":
                s = "panics although the random source works"
    elif okg:
        s = "panic path"
    return dict(status="proved" if s == "proved" else "unknown", detail=s, functions=fns, sub=64, cases=derive_inputs(fn, n, goal + okg) if s != "proved" else [])


def derive_inputs(fn, n, ts):
    from . import msgs
    if fn == "Rand":
        return []
    m = bytesvars("m", n)
    return [c for e in msgs.search(ts, "sha512", m) for c in case_derive(bytes(e[x] for x in m))]


def case_derive(m):
    import hashlib
    h = hashlib.sha512(m).digest()
    return [case_steps([{"m": "S." + fn, "a": ["s", "m"]}], [["s", "S", limbs32(77)], ["m", "bytes", m.hex()]], {"s": ["sc", str(w)]}, "Scalar.%s of %d bytes %s" % (fn, len(m), m.hex()[:40]))
            for fn, w in (("Derive", int.from_bytes(h, "little") % ref.l), ("DeriveShort", int.from_bytes(h[:16], "little")))]


def goal_setuint(ctx):
    P = ctx.progs[""]
    ex, st = harness(P, {})
    x = tm.var("x", U64)
    out = Ptr(ex.new(st, limbvars("r", 8, U32), "r"))
    st, _ = ex.call1(st, S("SetUint64"), [out, x])
    res = ex.load(st, out)
    want = [tm.conv(x, U32), tm.conv(tm.shift("shr", x, tm.const(32, U64)), U32)] + [tm.const(0, U32)] * 6
    s, env = solve.prove_bv(tm.band(*[tm.cmp("eq", a, b) for a, b in zip(res, want)]), timeout=100)
    cases = []
    if env:
        cases = [case_uint(env.get(x, 0))]
    return dict(status="proved" if s == "proved" else "refuted" if s == "failed" else "unknown", detail=s, cases=cases, functions=fnames(ex))


def case_uint(v):
    return case_steps([{"m": "S.SetUint64", "a": ["s", "#%d" % v]}], [["s", "S", limbs32(77)]], {"s": ["sc", str(v)]}, "Scalar.SetUint64(%d)" % v)


def case_big(v):
    return case_steps([{"m": "S.SetBigInt", "a": ["s", "v"]}], [["s", "S", limbs32(77)], ["v", "big", str(v)]],
                      {"s": ["sc", str(v % ref.l)], "v": ["raw", str(v)]}, "Scalar.SetBigInt(%d)" % v)


def goal_bigint(ctx):
    """SetBigInt: the reduced value's bytes reach SetBytes, for every byte length of the reduced value"""
    P = ctx.progs[""]
    log = []
    ex, st = harness(P, capture([S("SetBytes")], log))
    out = Ptr(ex.new(st, limbvars("r", 8, U32), "r"))
    from symgo.exec import Opaque
    x = Ptr(ex.new(st, Opaque("big", ("var", "x", None, None)), "x"))
    ex.merge = False
    outs = ex.call(st, S("SetBigInt"), [out, x])
    fns = fnames(ex) + [S("SetBytes")]
    seen = set()
    for s2, _ in outs:
        cap = s2.ghost.get("cap")
        if not cap or ex.load(s2, out) != cap[2]:
            return unknown("does not end in SetBytes", functions=fns)
        bl = s2.ghost.get("#bigbytes")
        if not bl or bl[0] != ("mod", ("var", "x", None, None), ref.l):
            return unknown("bytes are not those of x mod l: %r" % (bl and bl[0],), functions=fns, cases=[case_big(v) for v in (-1, ref.l, ref.l - 1, 2**256, -2**300)])
        want = list(bl[1]) + [tm.const(0, U8)] * (32 - len(bl[1]))
        s, env = solve.prove_bv(tm.band(*[tm.cmp("eq", a, b) for a, b in zip(cap[1], want)]))
        if s != "proved":
            v = int.from_bytes(bytes(env.get(t, 0) for t in bl[1]), "little") if env else 0
            return refuted("length %d" % len(bl[1]), functions=fns, cases=[case_big(v)])
        seen.add(len(bl[1]))
    if seen != set(range(33)) or ex.panics:
        return unknown("lengths %s panics %s" % (sorted(seen), ex.panics[:1]), functions=fns)
    return proved("33 byte lengths", functions=fns, sub=33)


def goals_c05(ctx):
    g = [("Scalar.SetReduced: 64 bytes mod l, canonical", goal_setreduced, {"_w": 9}),
         ("Scalar.SetBytes: (32 bytes mod 2^253) mod l, canonical", goal_setbytes, {"fn": "SetBytes", "_w": 9}),
         ("Scalar.SetBytesStrict accepts exactly values below l and keeps the receiver otherwise", goal_setbytes, {"fn": "SetBytesStrict", "_w": 9}),
         ("Scalar.SetUint64", goal_setuint, {}), ("Scalar.SetBigInt", goal_bigint, {})]
    for fn in ("BytesInto", "Bytes", "MarshalBinary"):
        g.append(("Scalar.%s is the little-endian value" % fn, goal_encode, {"fn": fn}))
    for fn in ("Derive", "DeriveShort"):
        for n in ((0, 1, 32, 64, 200) if not ctx.thorough else tuple(range(0, 300, 7))):
            g.append(("Scalar.%s of %d bytes = SHA-512 reduced" % (fn, n), goal_derive, {"fn": fn, "n": n}))
    g.append(("Scalar.Rand = 64 random bytes reduced", goal_derive, {"fn": "Rand", "n": 0}))
    g.append(("Scalar.BigInt", goal_tobig, {}))
    g.append(("Scalar.UnmarshalBinary of 32 bytes = SetBytes", goal_unmarshal, {}))
    return g


def goal_unmarshal(ctx):
    P = ctx.progs[""]
    log = []
    ex, st = harness(P, capture([S("SetBytes")], log))
    out = Ptr(ex.new(st, limbvars("r", 8, U32), "r"))
    b = bytesvars("b", 32)
    st, err = ex.call1(st, S("UnmarshalBinary"), [out, Slice(ex.new(st, b, "b"), (), 0, 32, 32)])
    cap = st.ghost.get("cap")
    fns = fnames(ex) + [S("SetBytes")]
    if err is not None or not cap or ex.load(st, out) != cap[2] or ex.panics:
        return unknown("shape", functions=fns)
    s, env = solve.prove_bv(tm.band(*[tm.cmp("eq", x, y) for x, y in zip(cap[1], b)]))
    return dict(status="proved" if s == "proved" else "refuted", detail=s, functions=fns)


def goal_tobig(ctx):
    P = ctx.progs[""]
    ex, st = harness(P)
    vs = limbvars("s", 8, U32)
    sp = Ptr(ex.new(st, vs, "s"))
    st, r = ex.call1(st, S("BigInt"), [sp])
    v = ex.load(st, r)
    fns = fnames(ex)
    from symgo.exec import Opaque
    if not isinstance(v, Opaque) or v.data[0] != "bytes" or len(v.data[1]) != 32:
        return unknown("shape %r" % (v,), functions=fns)
    by = v.data[1][::-1]
    goal = [tm.cmp("eq", by[i], tm.conv(tm.shift("shr", vs[i // 4], tm.const(8 * (i % 4), U64)), U8)) for i in range(32)]
    s, env = solve.prove_bv(tm.band(*goal))
    cases = [case_encode(sum(env.get(t, 0) << (32 * i) for i, t in enumerate(vs)) % ref.l)] if env else []
    return dict(status="proved" if s == "proved" else "refuted", detail=s, functions=fns, cases=cases, sub=32)


def pool_c05(ctx):
    import hashlib
    l = ref.l
    r = rng(ctx, "c05")
    cases = []
    vals = [k * l + e for k in range(0, 17) for e in (-2, -1, 0, 1, 2)] + [2**253 - 1, 2**253, 2**252, 2**252 - 1, 2**255, 2**256 - 1, 2**256 - l, 2**255 - 19]
    vals += [x + (j << 253) for x in (0, 1, l - 1, l, l + 1) for j in range(8)] + [r.randrange(2**256) for _ in range(30)]
    vals += [l ^ (1 << i) for i in range(256)] + getattr(ctx, "hints", [])
    for v in vals:
        if 0 <= v < 2**256:
            cases += [case_setbytes(ref.b32(v)), case_strict(ref.b32(v))]
    big = getattr(ctx, "long", []) + [2**512 - 1, 0, 1, l, l - 1, l + 1, 2**511, 2**256, 2**256 - 1]
    big += [k * l + e for k in (2**259, 2**258 + 1, 2**260 - 1, 2**512 // l, 2**500 // l, 2**300 // l) for e in (-1, 0, 1)]
    big += [sum(2**21 - 1 << (21 * i) for i in range(j)) for j in (5, 12, 13, 20, 24)]
    big += [r.randrange(2**512) for _ in range(60)] + [1 << i for i in range(0, 512, 5)] + [(1 << i) - 1 for i in range(0, 512, 7)]
    for v in big:
        if 0 <= v < 2**512:
            cases.append(case_reduced(v.to_bytes(64, "little")))
    for v in edge_scalars(ctx) + asked(ctx):
        cases += [case_encode(v), case_big(v)]
    for v in (-1, -l, l, l + 1, -l - 1, 2**256, -2**256, 2**600 + 12345, -2**600, 255, 256, 65535, 2**248, 2**248 - 1, -5, 2 * l - 1):
        cases.append(case_big(v))
    for v in [0, 1, 2**64 - 1, 2**63, 2**32, 2**32 - 1, 0x0102030405060708] + [h % 2**64 for h in getattr(ctx, "hints", [])]:
        cases.append(case_uint(v))
    for n in (0, 1, 5, 63, 64, 65, 111, 112, 113, 127, 128, 129, 1000):
        m = bytes((7 * i + n) & 255 for i in range(n))
        cases += case_derive(m)
    for v in [l, l + 5, 2**256 - 1, 3] + getattr(ctx, "hints", []):
        b = ref.b32(v)
        cases.append(case_steps([{"m": "S.UnmarshalBinary", "a": ["s", "m"], "r": ["e"]}], [["s", "S", limbs32(77)], ["m", "bytes", b.hex()]],
                                {"s": ["sc", str(v % 2**253 % l)], "e": ["iserr", False]}, "Scalar.UnmarshalBinary(%s)" % b.hex()))
    return cases


# ---- C06 ----------------------------------------------------------------------

def case_inverse(v, alias):
    w = pow(v, -1, ref.l) if v else 0
    a = ["s", "s"] if alias else ["r", "s"]
    exp = {a[0]: ["sc", str(w)]}
    return case_steps([{"m": "S.Inverse", "a": a}], [["r", "S", limbs32(77)], ["s", "S", limbs32(v)]], exp, "Scalar.Inverse(%d)%s" % (v, " in place" if alias else ""))


def goal_inverse(ctx, alias):
    """power-product execution: every scalar value is t^e; the exponent of the result is l-2 (mod l-1), at least 1"""
    P = ctx.progs[""]
    exps = {}
    log = []

    def fresh(e):
        key = ("pw", e)
        if key not in exps:
            exps[key] = tuple(tm.var("pw%d_%d" % (len(exps), i), U32) for i in range(8))
            exps[exps[key]] = e
        return exps[key]

    def hmul(ex, st, a, ins):
        x, y = exps.get(ex.load(st, a[1])), exps.get(ex.load(st, a[2]))
        if x is None or y is None:
            return NotImplemented
        log.append((x, y))
        ex.store(st, a[0], fresh(x + y))
        return a[0]

    def hsq(ex, st, a, ins):
        return hmul(ex, st, [a[0], a[1], a[1]], ins)
    ex, st = harness(P, {S("Mul"): hmul, S("Square"): hsq})
    t = Ptr(ex.new(st, fresh(1), "t"))
    out = t if alias else Ptr(ex.new(st, limbvars("r", 8, U32), "r"))
    st, _ = ex.call1(st, S("Inverse"), [out, t])
    e = exps.get(ex.load(st, out))
    fns = fnames(ex) + [S("Mul"), S("Square")]
    if e is None:
        return unknown("result is not a power of the operand", functions=fns)
    # solver: e = l-2 + k(l-1), k >= 0, from the logged exponent additions
    s = z3.Solver()
    acc = {1: z3.Int("e1")}
    s.add(acc[1] == 1)
    for x, y in log:
        if x + y not in acc:
            acc[x + y] = z3.Int("e%d" % len(acc))
            s.add(acc[x + y] == acc[x] + acc[y])
    k = z3.Int("k")
    s.add(z3.Not(z3.And(acc[e] >= 1, acc[e] % (ref.l - 1) == ref.l - 2)))
    r = solve.check(s, "LIA", 60)
    if r == z3.unsat:
        return proved("%d multiplications" % len(log), functions=fns, sub=len(log))
    return refuted("exponent %d" % e, functions=fns, cases=[case_inverse(2, alias), case_inverse(3, alias)])


def goals_c06(ctx):
    return [("Scalar.Inverse is the power l-2", goal_inverse, {"alias": False}),
            ("Scalar.Inverse in place is the power l-2", goal_inverse, {"alias": True}),
            ("Scalar.Mul exact and canonical", goal_op, {"fn": "Mul"}),
            ("Scalar.Square exact and canonical", goal_op, {"fn": "Square"}),
            ("Scalar.Mul with the receiver among the operands equals the distinct case", goal_alias, {"fn": "Mul"}),
            ("Scalar.Square in place equals the distinct case", goal_alias, {"fn": "Square"})]


def alias_patterns(n):
    """partitions of receiver (0) and operands 1..n into groups of equal variables"""
    out = [[0]]
    for i in range(n):
        out = [p + [k] for p in out for k in range(max(p) + 2)]
    return [p for p in out]


def goal_alias(ctx, fn):
    """the limb terms of the result are identical for every aliasing pattern (substituting equal operands)"""
    P = ctx.progs[""]
    ar = OPS[fn]
    fns = []

    def run(pat):
        ex, st = harness(P)
        objs = {}
        for k in set(pat):
            objs[k] = Ptr(ex.new(st, limbvars("v%d" % k, 8, U32), "v"))
        st, _ = ex.call1(st, S(fn), [objs[k] for k in pat])
        fns.extend(fnames(ex))
        rest = [(k, ex.load(st, o)) for k, o in objs.items() if k != pat[0]]
        return ex.load(st, objs[pat[0]]), rest
    cases = []
    for pat in alias_patterns(ar):
        got, rest = run(pat)
        # distinct run on the same values
        ex, st = harness(P)
        ops = [Ptr(ex.new(st, limbvars("v%d" % k, 8, U32), "v")) for k in pat[1:]]
        out = Ptr(ex.new(st, limbvars("old", 8, U32), "r"))
        st, _ = ex.call1(st, S(fn), [out] + ops)
        want = ex.load(st, out)
        bad = [k for k, v in rest if v != limbvars("v%d" % k, 8, U32)]
        if got != want:
            s, env = solve.prove_bv(tm.band(*[tm.cmp("eq", a, b) for a, b in zip(got, want)]), timeout=60)
            if s != "proved":
                return dict(status="refuted" if s == "failed" else "unknown", detail="pattern %s" % pat, functions=fns, cases=alias_cases(ctx, fn, pat))
        if bad:
            return dict(status="refuted", detail="pattern %s writes operand" % pat, functions=fns, cases=alias_cases(ctx, fn, pat))
    return proved(functions=fns, sub=len(alias_patterns(ar)))


def alias_cases(ctx, fn, pat):
    ed = edge_scalars(ctx, 6)
    r = rng(ctx, "alias")
    out = []
    for _ in range(40):
        vals = {k: r.choice(ed) for k in set(pat)}
        vs = [vals[k] for k in pat[1:]]
        exp = {"v%d" % pat[0]: ["sc", str(SPEC[fn](*vs) % ref.l)]}
        for k in set(pat):
            if k != pat[0]:
                exp["v%d" % k] = ["sc", str(vals[k])]
        out.append(case_steps([{"m": "S." + fn, "a": ["v%d" % k for k in pat]}], [["v%d" % k, "S", limbs32(v)] for k, v in vals.items()], exp,
                              "Scalar.%s aliasing %s of %s" % (fn, pat, vs)))
    return out


def pool_c06(ctx):
    vs = edge_scalars(ctx)
    for v in asked(ctx):
        vs += [v, pow(v, ref.l - 2, ref.l), ref.l - v]
    return [case_inverse(v, a) for v in vs for a in (False, True)]


# ---- C07 ----------------------------------------------------------------------

def sub_contract(assume, used):
    """hook for Scalar.Sub on canonical operands: fresh result r with (r = 0 iff a = b); used by the comparisons"""
    def h(ex, st, args, ins):
        a, b = ex.load(st, args[1]), ex.load(st, args[2])
        if not all(t.op == "var" and t.args[0][:2] in ("a_", "b_") for t in a + b):
            return NotImplemented
        used.append(1)
        r = tuple(tm.var("sub%d_%d" % (len(used), i), U32) for i in range(8))
        z = tm.band(*[tm.cmp("eq", t, tm.const(0, U32)) for t in r])
        e = tm.band(*[tm.cmp("eq", x, y) for x, y in zip(a, b)])
        assume.append(tm.band(tm.bor(z, tm.bnot(e)), tm.bor(e, tm.bnot(z))))
        ex.store(st, args[0], r)
        return args[0]
    return h


def case_cmp(fn, a, b):
    if fn == "IsNonZeroI":
        return case_steps([{"m": "S.IsNonZeroI", "a": ["a"], "r": ["r"]}], [["a", "S", limbs32(a)]], {"r": ["int", str(int(a != 0))], "a": ["sc", str(a)]}, "Scalar.IsNonZeroI(%d)" % a)
    e = ["int", str(int(a == b))] if fn == "EqualsI" else ["bool", a == b]
    return case_steps([{"m": "S." + fn, "a": ["a", "b"], "r": ["r"]}], [["a", "S", limbs32(a)], ["b", "S", limbs32(b)]],
                      {"r": e, "a": ["sc", str(a)], "b": ["sc", str(b)]}, "Scalar.%s(%d, %d)" % (fn, a, b))


def goal_cmp(ctx, fn):
    P = ctx.progs[""]
    assume, used = [], []
    ex, st = harness(P, {S("Sub"): sub_contract(assume, used)} if fn != "IsNonZeroI" else {})
    a, b = limbvars("a", 8, U32), limbvars("b", 8, U32)
    pa, pb = Ptr(ex.new(st, a, "a")), Ptr(ex.new(st, b, "b"))
    st, r = ex.call1(st, S(fn), [pa] + ([] if fn == "IsNonZeroI" else [pb]))
    fns = fnames(ex)
    e = tm.band(*[tm.cmp("eq", x, y if fn != "IsNonZeroI" else tm.const(0, U32)) for x, y in zip(a, b)])
    if fn == "IsNonZeroI":
        goal = tm.cmp("eq", r, tm.b2i(tm.bnot(e), r.ty))
    elif r.ty == BOOL:
        goal = tm.band(tm.bor(r, tm.bnot(e)), tm.bor(e, tm.bnot(r)))
    else:
        goal = tm.cmp("eq", r, tm.b2i(e, r.ty))
    keep = tm.band(*[tm.cmp("eq", x, y) for x, y in zip(ex.load(st, pa) + ex.load(st, pb), a + b)])
    canon = []
    if not used and fn != "IsNonZeroI":
        canon = [lt_l(a), lt_l(b)]
    s, env = solve.prove_bv(tm.band(goal, keep), assume + canon, timeout=150)
    if s == "proved":
        return proved(functions=fns)
    cases = []
    if env:
        v = [sum(env.get(t, 0) << (32 * i) for i, t in enumerate(vs)) for vs in (a, b)]
        cases = [case_cmp(fn, v[0] % ref.l, v[1] % ref.l), case_cmp(fn, v[0] % ref.l, v[0] % ref.l)]
    # exact search without the contract
    ed = edge_scalars(ctx)
    return dict(status="refuted" if s == "failed" else "unknown", detail=s, cases=cases, functions=fns)


def lt_l(vs):
    """limbs < l as a boolean term"""
    lt, eq = FALSE, TRUE
    for i in range(7, -1, -1):
        c = tm.const((ref.l >> (32 * i)) & 0xffffffff, U32)
        lt = tm.bor(lt, tm.band(eq, tm.cmp("lt", vs[i], c)))
        eq = tm.band(eq, tm.cmp("eq", vs[i], c))
    return lt


def goal_sub_zero(ctx):
    """justifies the contract: for a, b < l the difference is 0 iff a = b (from Sub exact and canonical)"""
    a, b, r, k = z3.Ints("a b r k")
    s = z3.Solver()
    l = ref.l
    s.add(a >= 0, a < l, b >= 0, b < l, r >= 0, r < l, r - (a - b) == l * k, (r == 0) != (a == b))
    st = solve.check(s, "LIA", 30)
    g = goal_op(ctx, "Sub")
    if st == z3.unsat and g["status"] == "proved":
        return g
    return dict(status="unknown", detail="contract", cases=g.get("cases", []), functions=g.get("functions", []))


def case_condset(a, b, f):
    return case_steps([{"m": "S.ConditionalSet", "a": ["a", "b", "#%d" % f]}], [["a", "S", limbs32(a)], ["b", "S", limbs32(b)]],
                      {"a": ["sc", str(b if f else a)], "b": ["sc", str(b)]}, "Scalar.ConditionalSet(%d, %d, %d)" % (a, b, f))


def goal_set(ctx, fn):
    P = ctx.progs[""]
    ex, st = harness(P)
    a, b = limbvars("a", 8, U32), limbvars("b", 8, U32)
    pa, pb = Ptr(ex.new(st, a, "a")), Ptr(ex.new(st, b, "b"))
    assume = []
    if fn == "ConditionalSet":
        f = tm.var("f", I32)
        st, _ = ex.call1(st, S(fn), [pa, pb, f])
        c1 = tm.cmp("eq", f, tm.const(1, I32))
        assume = [tm.bor(c1, tm.cmp("eq", f, tm.const(0, I32)))]
        want = [tm.ite(c1, y, x) for x, y in zip(a, b)]
    elif fn == "Set":
        st, _ = ex.call1(st, S(fn), [pa, pb])
        want = b
    else:
        st, _ = ex.call1(st, S(fn), [pa])
        want = [tm.const(int(fn == "SetOne" and i == 0), U32) for i in range(8)]
    goal = tm.band(*[tm.cmp("eq", x, y) for x, y in zip(ex.load(st, pa) + ex.load(st, pb), tuple(want) + b)])
    s, env = solve.prove_bv(goal, assume)
    fns = fnames(ex)
    if s == "proved":
        return proved(functions=fns, sub=16)
    cases = []
    if env:
        v = [sum(env.get(t, 0) << (32 * i) for i, t in enumerate(vs)) % ref.l for vs in (a, b)]
        if fn == "ConditionalSet":
            cases = [case_condset(v[0], v[1], f) for f in (0, 1)]
        elif fn == "Set":
            cases = [case_steps([{"m": "S.Set", "a": ["a", "b"]}], [["a", "S", limbs32(v[0])], ["b", "S", limbs32(v[1])]], {"a": ["sc", str(v[1])], "b": ["sc", str(v[1])]}, "Scalar.Set")]
        else:
            cases = [case_steps([{"m": "S." + fn, "a": ["a"]}], [["a", "S", limbs32(v[0])]], {"a": ["sc", str(int(fn == "SetOne"))]}, "Scalar." + fn)]
    return dict(status="refuted" if s == "failed" else "unknown", detail=s, cases=cases, functions=fns)


def goals_c07(ctx):
    g = [("Scalar.%s decides equality/non-zero for canonical scalars" % f, goal_cmp, {"fn": f}) for f in ("IsNonZeroI", "EqualsI", "Equals")]
    g.append(("difference of canonical scalars is zero iff they are equal", goal_sub_zero, {"_w": 9}))
    g += [("Scalar.%s" % f, goal_set, {"fn": f}) for f in ("ConditionalSet", "Set", "SetZero", "SetOne")]
    return g


def pool_c07(ctx):
    ed = edge_scalars(ctx) + [1 << i for i in range(0, 252)] + asked(ctx)
    cases = [case_cmp("IsNonZeroI", v, 0) for v in ed]
    for v in ed:
        for fn in ("EqualsI", "Equals"):
            cases.append(case_cmp(fn, v, v))
            for w in (0, 1, (v + 1) % ref.l, (v ^ 2**31) % ref.l, (v ^ 2**250) % ref.l, (v + 2**32) % ref.l, (v + 2**128) % ref.l):
                cases.append(case_cmp(fn, v, w))
        for f in (0, 1):
            cases.append(case_condset(v, ref.l - 1 - v, f))
    return cases
