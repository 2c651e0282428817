"""C02: field encoding, decoding, comparison, selection."""
from .fields import *
from . import fepool, c01
from . import fev
from symgo import ff
from symgo.exec import Opaque

BOUNDS = ("BytesInto and ConditionalSet: all limb vectors in every interval box that the closure of the exported operations can hand to them; "
          "SetBytes: all 2^256 byte strings; big integers: all values, every byte length of the reduced value")
EXPLAIN = ("BytesInto is encoded as exact integer arithmetic (carries explicit) and the solver shows that the bytes are the value of the limbs reduced below p; "
           "predicates are executed over an abstract field value whose bytes are solver variables.")
ASSUME = ["math/big is modelled: Mod, SetBytes, Bytes, SetString as documented"]


def krange(B, box):
    lo = sum(l << w for (l, h), w in zip(box, B.W))
    hi = sum(h << w for (l, h), w in zip(box, B.W))
    return lo // ref.p, hi // ref.p


def run_bytes(B, limbs, fn="BytesInto"):
    ex, st = harness(B.p)
    x = Ptr(ex.new(st, limbs, "x"))
    if fn == "Bytes":
        st, by = ex.call1(st, FE(fn), [x])
        ret = x
    else:
        o = Ptr(ex.new(st, bytesvars("old", 32), "o"))
        st, ret = ex.call1(st, FE(fn), [x, o])
        by = ex.load(st, o)
    return ex, st, x, by, ret


def prove_bytes(B, limbs, by, box, timeout=40):
    L = LIF(dict(zip(limbs, box)))
    R = {}
    for i, t in enumerate(by):
        R = padd(R, L.poly(t), 1 << (8 * i))
    D = padd(c01.poly(L, B, limbs), R, -1)
    if solve.prove_zero_mod(L, D, ref.p)[0] == "proved" and solve.prove_range(L, R, 0, ref.p - 1)[0] == "proved":
        return "proved", None
    q = TQ(dict(zip(limbs, box)))
    V = {}
    for t, w in zip(limbs, B.W):
        V = fadd(V, q.X.form(t), 1 << w)
    q.forms.append(V)
    R = q.val(by, 8)
    k0, k1 = krange(B, box)

    def ok(z):
        return z3.And(z(R) >= 0, z(R) < ref.p, z3.Or(*[z(V) - z(R) == k * ref.p for k in range(k0, k1 + 1)]))
    s, m = q.prove(ok, timeout=timeout)
    return s, ([q.model(m, t) for t in limbs] if m is not None else None)


def goal_bytes(ctx, tag, box, where):
    B = Backend(ctx, tag)
    vs = limbvars("x", B.n, B.ty)
    ex, st, x, by, ret = run_bytes(B, vs)
    fns = fnames(ex)
    if ex.panics or ex.obligations:
        return unknown("panic paths", functions=fns)
    if ex.load(st, x) != vs:
        return dict(status="unknown", detail="receiver changed", functions=fns, cases=lift_bytes(ctx, B))
    if ret != x:
        return unknown("result pointer", functions=fns)
    s, m = prove_bytes(B, vs, by, box)
    if s == "proved":
        return proved(functions=fns, sub=2)
    cases = [] if ctx.cache.get("nolift") else lift_bytes(ctx, B)
    return dict(status="refuted" if s == "failed" else "unknown", detail="%s; used by %s" % (s, where), cases=cases, functions=fns)


def sb(B, bs):
    ex, st = harness(B.p)
    q = Ptr(ex.new(st, B.p.zero(B.tname), "r"))
    st, r = ex.call1(st, FE("SetBytes"), [q, Ptr(ex.new(st, bs, "b"))])
    return ex, ex.load(st, q), r == q


def case_form(B, tag, b, c, form, note):
    """BytesInto of a form of SetBytes values"""
    x, y = int.from_bytes(b, "little") % 2**255, int.from_bytes(c, "little") % 2**255
    want = {"s": x, "n": -x, "d": x - y, "m": x, "a": x + y, "A": x + y, "D": x - y}[form] % ref.p
    Z = ["0"] * B.n
    steps = [{"m": "FE.SetBytes", "a": ["x", "b"]}, {"m": "FE.SetBytes", "a": ["y", "c"]}, {"m": "FE.SetOne", "a": ["one"]}]
    steps += {"s": [{"m": "FE.Set", "a": ["z", "x"]}], "n": [{"m": "FE.Neg", "a": ["z", "x"]}], "d": [{"m": "FE.Sub", "a": ["z", "x", "y"]}],
              "m": [{"m": "FE.Mul", "a": ["z", "x", "one"]}], "a": [{"m": "FE.Add", "a": ["z", "x", "y"]}],
              "A": [{"m": "FE.Mul", "a": ["x", "x", "one"]}, {"m": "FE.Mul", "a": ["y", "y", "one"]}, {"m": "FE.add", "a": ["z", "x", "y"]}],
              "D": [{"m": "FE.Mul", "a": ["x", "x", "one"]}, {"m": "FE.Mul", "a": ["y", "y", "one"]}, {"m": "FE.sub", "a": ["z", "x", "y"]}]}[form]
    steps += [{"m": "FE.Set", "a": ["w", "z"]}, {"m": "FE.BytesInto", "a": ["z", "o"]}, {"m": "FE.Bytes", "a": ["z"], "r": ["o2"]}, {"m": "FE.BigInt", "a": ["z"], "r": ["g"]},
              {"m": "FE.IsNegativeI", "a": ["z"], "r": ["neg"]}, {"m": "FE.IsNonZeroI", "a": ["z"], "r": ["nz"]}, {"m": "FE.IsOneI", "a": ["z"], "r": ["on"]},
              {"m": "FE.Abs", "a": ["ab", "z"]}]
    h = ref.b32(want).hex()
    return {"tags": [tag], "prog": {"vars": [["x", "FE", Z], ["y", "FE", Z], ["z", "FE", Z], ["w", "FE", Z], ["one", "FE", Z], ["ab", "FE", ["5"] * B.n], ["b", "b32", b.hex()], ["c", "b32", c.hex()],
                                             ["o", "b32", "aa" * 32]],
                                    "steps": steps, "out": ["o", "o2", "g", "neg", "nz", "on", "ab", "z"]},
            "expect": {"o": ["hex", h], "o2": ["hex", h], "g": ["raw", str(want)], "neg": ["int", want & 1], "nz": ["int", int(want != 0)], "on": ["int", int(want == 1)],
                       "ab": ["fe", str(ref.absf(want))], "z": ["fe", str(want)]}, "note": note}


def lift_bytes(ctx, B, tmax=50):
    """an exact counterexample that starts from SetBytes"""
    t0 = time.time()
    out = []
    for form in ("s", "n", "m", "d0", "d1", "a"):
        if time.time() - t0 > tmax or len(out) >= 2:
            break
        try:
            bs = bytesvars("b", 32)
            ex, lim, _ = sb(B, bs)
            c = ref.b32(0)
            ex, st = harness(B.p)
            x = Ptr(ex.new(st, lim, "x"))
            z = Ptr(ex.new(st, B.p.zero(B.tname), "z"))
            if form == "s":
                st.mem[z.obj] = lim
            elif form == "n":
                st, _ = ex.call1(st, FE("Neg"), [z, x])
            else:
                c = ref.b32({"m": 1, "d0": 1, "d1": ref.p - 1, "a": ref.p - 1}[form])
                _, cl, _ = sb(B, tuple(tm.const(t, U8) for t in c))
                st, _ = ex.call1(st, FE({"m": "Mul", "a": "Add"}.get(form, "Sub")), [z, x, Ptr(ex.new(st, cl, "c"))])
            zl = ex.load(st, z)
            _, _, _, by, _ = run_bytes(B, zl)
            q = TQ({})
            V = q.val(bs[:31] + (tm.binop("and", bs[31], tm.const(127, U8)),), 8)
            R = q.val(by, 8)
            sg, off = {"s": (1, 0), "n": (-1, 0), "m": (1, 0), "d0": (1, -1), "d1": (1, 1 - ref.p), "a": (1, ref.p - 1)}[form]
            r, m = q.prove(lambda z: z3.And(z(R) >= 0, z(R) < ref.p, z3.Or(*[sg * z(V) + off - z(R) == k * ref.p for k in range(-3, 4)])), timeout=12)
            if m is not None:
                b = bytes(q.model(m, t) for t in bs)
                out.append(case_form(B, B.tag, b, c, form[0], "BytesInto of %s(%s)" % (form, b.hex())))
        except Unsupported:
            continue
    return out


def goal_setbytes(ctx, tag):
    B = Backend(ctx, tag)
    bs = bytesvars("b", 32)
    ex, lim, ret = sb(B, bs)
    fns = fnames(ex)
    if ex.panics or ex.obligations or not ret:
        return unknown("panic paths or result pointer", functions=fns)
    q = TQ({})
    V = q.val(bs[:31] + (tm.binop("and", bs[31], tm.const(127, U8)),), 8)
    R = {}
    for t, w in zip(lim, B.W):
        R = fadd(R, q.X.form(t), 1 << w)
    q.forms.append(R)
    s, m = q.prove(lambda z: z3.Or(*[z(V) - z(R) == k * ref.p for k in range(-3, 4)]), timeout=60)
    if s == "proved":
        return proved(functions=fns)
    cases = []
    if m is not None:
        b = bytes(q.model(m, t) for t in bs)
        cases = [case_form(B, tag, b, ref.b32(0), "s", "SetBytes(%s)" % b.hex())]
    return dict(status="refuted" if s == "failed" else "unknown", detail=s, functions=fns, cases=cases)


def goal_const(ctx, tag):
    """SetZero, SetOne, SetI, Set"""
    B = Backend(ctx, tag)
    fns = []
    for m, v in (("SetZero", 0), ("SetOne", 1), ("SetI", ref.I), ("Set", None)):
        ex, st = harness(B.p)
        x = Ptr(ex.new(st, limbvars("old", B.n, B.ty), "x"))
        src = limbvars("s", B.n, B.ty)
        args = [x] + ([Ptr(ex.new(st, src, "s"))] if v is None else [])
        st, r = ex.call1(st, FE(m), args)
        got = ex.load(st, x)
        fns += fnames(ex)
        ok = r == x and (got == src if v is None else all(t.op == "c" for t in got) and B.value([t.args[0] for t in got]) % ref.p == v)
        if not ok:
            return refuted(m, functions=fns, cases=cases_const(B, tag))
    return proved(functions=sorted(set(fns)), sub=4)


def cases_const(B, tag):
    out = []
    for m, v in (("SetZero", 0), ("SetOne", 1), ("SetI", ref.I), ("Set", 2**200 + 5)):
        for old in (0, 7):
            out.append({"tags": [tag], "prog": {"vars": [["x", "FE", [str(old)] * B.n], ["y", "FE", ["0"] * B.n], ["b", "b32", ref.b32(2**200 + 5).hex()]],
                                                "steps": [{"m": "FE.SetBytes", "a": ["y", "b"]}, {"m": "FE." + m, "a": ["x", "y"] if m == "Set" else ["x"]}], "out": ["x", "y"]},
                        "expect": {"x": ["fe", str(v)], "y": ["fe", str(2**200 + 5)]}, "note": "FieldElement." + m})
    return out


def goal_cond(ctx, tag, boxes, where):
    """copies exactly when the flag is 1, for the receiver distinct from or equal to the source"""
    B = Backend(ctx, tag)
    rs = []
    for b in (0, 1):
        for alias in (False, True):
            ex, st = harness(B.p)
            a, c = limbvars("a", B.n, B.ty), limbvars("c", B.n, B.ty)
            x = Ptr(ex.new(st, a, "x"))
            y = x if alias else Ptr(ex.new(st, c, "y"))
            st, _ = ex.call1(st, FE("ConditionalSet"), [x, y, tm.const(b, I32)])
            got = ex.load(st, x)
            want = a if alias or not b else c
            fns = fnames(ex)
            if not alias and ex.load(st, y) != c:
                rs.append(unknown("source changed", functions=fns))
            hyp = [tm.band(tm.cmp("le", tm.const(l, B.ty), t), tm.cmp("le", t, tm.const(h, B.ty))) for v, bx in ((a, boxes[0]), (c, boxes[1])) for t, (l, h) in zip(v, bx)]
            bad = [(g, w) for g, w in zip(got, want) if g is not w]
            if not bad:
                rs.append(proved(functions=fns))
                continue
            s, env = solve.prove_bv(tm.bor(tm.bnot(tm.band(*hyp)), tm.band(*[tm.cmp("eq", g, w) for g, w in bad])))
            rs.append(dict(status="proved" if s == "proved" else "refuted" if env else "unknown", detail="flag %d alias %s" % (b, alias), functions=fns))
    return combine(rs)


def goal_pred(ctx, tag, m):
    """predicates on the value"""
    B = Backend(ctx, tag)
    R = fev.FRun(B, 1)
    ex, st = R.ex, R.st
    x, y = ff.fv("x"), ff.fv("y")
    two = m in ("EqualsI", "Equals")
    px, py = R.obj("x", R.fe(x)), R.obj("y", R.fe(y))
    st, r = ex.call1(st, FE(m), [px] + ([py] if two else []))
    fns = fnames(ex) + sorted(R.used)
    if ex.panics or ex.obligations:
        return unknown("panic paths", functions=fns)
    if R.get(st, px) is not x or R.get(st, py) is not y:
        return unknown("operand changed", functions=fns)
    # the encodings are byte variables below p; which field values are encoded?
    vals = {}
    for u in tm.subterms([r]):
        if u.op == "fby":
            vals.setdefault(u.args[0], {})[u.args[1]] = u
    bv = {v: tuple(tm.var("by%d_%d" % (k, i), U8) for i in range(32)) for k, v in enumerate(vals)}
    r = ff.fsubst([r], {u: bv[v][i] for v, d in vals.items() for i, u in d.items()})[0]
    if any(u.ty == ff.FTY for u in tm.subterms([r])):
        return unknown("shape", functions=fns)

    def eqc(v, n):
        return tm.band(*[tm.cmp("eq", t, tm.const((n >> (8 * i)) & 255, U8)) for i, t in enumerate(bv[v])])
    hyps = []
    for v in bv:
        # below p = 2^255-19
        top = tm.cmp("le", bv[v][31], tm.const(127, U8))
        full = tm.band(tm.cmp("eq", bv[v][31], tm.const(127, U8)), *[tm.cmp("eq", t, tm.const(255, U8)) for t in bv[v][1:31]])
        hyps += [top, tm.bor(tm.bnot(full), tm.cmp("lt", bv[v][0], tm.const(0xed, U8)))]
    keys = list(bv)
    want = None
    if m == "IsNegativeI" and keys == [x]:
        want = tm.cmp("eq", tm.binop("and", bv[x][0], tm.const(1, U8)), tm.const(1, U8))
    elif m == "IsNonZeroI" and keys == [x]:
        want = tm.bnot(eqc(x, 0))
    elif m == "IsOneI":
        if keys == [x]:
            want = eqc(x, 1)
        elif len(keys) == 1 and zero_iff(keys[0], ff.fsub(x, ff.ONE)):
            want = eqc(keys[0], 0)
    elif two:
        if set(keys) == {x, y}:
            want = tm.band(*[tm.cmp("eq", a, b) for a, b in zip(bv[x], bv[y])])
        elif len(keys) == 1 and zero_iff(keys[0], ff.fsub(x, y)):
            want = eqc(keys[0], 0)
    if want is None:
        return unknown("shape: encodes %s" % [tm.show(k, 3) for k in keys], functions=fns)
    if m == "Equals":
        good = tm.bor(tm.band(r, want), tm.band(tm.bnot(r), tm.bnot(want)))
    else:
        good = tm.cmp("eq", r, tm.b2i(want, I32))
    s, env = solve.prove_bv(tm.bor(tm.bnot(tm.band(*hyps)) if hyps else FALSE, good))
    if s == "proved":
        return proved(functions=fns)
    cases = []
    if env is not None:
        for v in keys:
            n = sum(env.get(t, 0) << (8 * i) for i, t in enumerate(bv[v]))
            if v is x:
                cases.append(case_form(B, tag, ref.b32(n), ref.b32(0), "s", "%s(%d)" % (m, n)))
            else:
                cases.append(case_form(B, tag, ref.b32((n + 1) % ref.p), ref.b32(0), "s", "%s(%d)" % (m, n)))
                if two:
                    cases.append(case_eq(B, tag, n, 0))
    return dict(status="refuted" if s == "failed" else "unknown", detail=s, functions=fns, cases=cases)


def zero_iff(a, b):
    """a = 0 <=> b = 0 in the field"""
    c1 = ff.Ctx([a])
    c2 = ff.Ctx([b])
    return c1.zero(b) and c2.zero(a)


def case_eq(B, tag, x, y):
    Z = ["0"] * B.n
    return {"tags": [tag], "prog": {"vars": [["x", "FE", Z], ["y", "FE", Z], ["b", "b32", ref.b32(x).hex()], ["c", "b32", ref.b32(y).hex()]],
                                    "steps": [{"m": "FE.SetBytes", "a": ["x", "b"]}, {"m": "FE.SetBytes", "a": ["y", "c"]},
                                              {"m": "FE.EqualsI", "a": ["x", "y"], "r": ["r"]}, {"m": "FE.Equals", "a": ["x", "y"], "r": ["q"]}], "out": ["r", "q"]},
            "expect": {"r": ["int", int((x - y) % ref.p == 0)], "q": ["bool", (x - y) % ref.p == 0]}, "note": "Equals(%d, %d)" % (x, y)}


def goal_abs(ctx, tag):
    B = Backend(ctx, tag)
    fns = []
    for alias in (False, True):
        R = fev.FRun(B, 2)
        x = ff.fv("x")
        px = R.obj("x", R.fe(x))
        pr = px if alias else R.obj("r", R.fe(ff.fv("old")))
        st, r = R.ex.call1(R.st, FE("Abs"), [pr, px])
        fns += fnames(R.ex) + sorted(R.used)
        if r != pr or R.ex.panics or (not alias and R.get(st, px) is not x):
            return unknown("shape", functions=fns)
        got = R.get(st, pr)

        def leaf(c, terms, bools, path):
            t = terms[0]
            return None if (c.sign(t, False) and (c.zero(ff.fsub(t, x)) or c.zero(ff.fadd(t, x)))) else "not the absolute value"
        f = fev.Split().run([got], leaf, [ff.fsg(x)])
        if f:
            return dict(status="unknown", detail=f[0], functions=fns)
    return proved(functions=sorted(set(fns)), sub=2)


def goal_bytes_fn(ctx, tag):
    """Bytes and BigInt deliver what BytesInto writes"""
    B = Backend(ctx, tag)
    R = fev.FRun(B, 1)
    x = ff.fv("x")
    px = R.obj("x", R.fe(x))
    st, r = R.ex.call1(R.st, FE("Bytes"), [px])
    fns = fnames(R.ex) + sorted(R.used)
    want = tuple(fev.fbyte(x, i) for i in range(32))
    if tuple(r) != want or R.get(st, px) is not x:
        return unknown("Bytes", functions=fns)
    R = fev.FRun(B, 1)
    px = R.obj("x", R.fe(x))
    st, r = R.ex.call1(R.st, FE("BigInt"), [px])
    fns += fnames(R.ex)
    v = R.ex.load(st, r)
    if not isinstance(v, Opaque) or v.data[0] != "bytes":
        return unknown("BigInt", functions=fns)
    by = list(v.data[1])[::-1]
    if tuple(by) != want or R.get(st, px) is not x:
        return unknown("BigInt bytes", functions=fns)
    return proved(functions=sorted(set(fns)), sub=2)


def goal_setbig(ctx, tag):
    B = Backend(ctx, tag)
    R = fev.FRun(B, 1)
    ex, st = R.ex, R.st
    out = R.obj("r", R.fe(ff.fv("old")))
    x = Ptr(ex.new(st, Opaque("big", ("var", "x", None, None)), "x"))
    ex.merge = False
    outs = ex.call(st, FE("SetBigInt"), [out, x])
    fns = fnames(ex) + sorted(R.used)
    seen = set()
    for s2, r in outs:
        bl = s2.ghost.get("#bigbytes")
        if r != out or not bl or bl[0] != ("mod", ("var", "x", None, None), ref.p):
            return unknown("bytes are not those of x mod p: %r" % (bl and bl[0],), functions=fns)
        got = R.get(s2, out)
        want = list(bl[1]) + [tm.const(0, U8)] * (32 - len(bl[1]))
        if got is not R.frombytes(want):
            return unknown("length %d" % len(bl[1]), functions=fns)
        seen.add(len(bl[1]))
    if seen != set(range(33)) or ex.panics:
        return unknown("lengths %s panics %s" % (sorted(seen), ex.panics[:1]), functions=fns)
    return proved("33 byte lengths", functions=fns, sub=33)


def goals(ctx):
    out = []
    for tag, A in c01.analyses(ctx).items():
        lab = "default" if not tag else tag
        if isinstance(A, str):
            out.append(("closure[%s]" % lab, lambda ctx, why: unknown("box analysis: " + why), dict(why=A)))
            continue
        k = 0
        for n, boxes, w in A["req"]:
            if n == "BytesInto":
                out.append(("BytesInto[%s]#%d" % (lab, k), goal_bytes, dict(tag=tag, box=boxes[0], where=w)))
                k += 1
            elif n == "ConditionalSet":
                out.append(("ConditionalSet[%s]#%d" % (lab, k), goal_cond, dict(tag=tag, boxes=boxes, where=w)))
                k += 1
        out.append(("BytesInto of any exported value[%s]" % lab, goal_bytes, dict(tag=tag, box=A["pool"]["FE"][0] if A["pool"].get("FE") else A["sbox"], where="user")))
        out.append(("SetBytes[%s]" % lab, goal_setbytes, dict(tag=tag)))
        out.append(("Set, SetZero, SetOne, SetI[%s]" % lab, goal_const, dict(tag=tag)))
        for m in ("IsNegativeI", "IsNonZeroI", "IsOneI", "EqualsI", "Equals"):
            out.append(("%s[%s]" % (m, lab), goal_pred, dict(tag=tag, m=m)))
        out.append(("Abs[%s]" % lab, goal_abs, dict(tag=tag)))
        out.append(("Bytes, BigInt[%s]" % lab, goal_bytes_fn, dict(tag=tag)))
        out.append(("SetBigInt[%s]" % lab, goal_setbig, dict(tag=tag)))
    return out


def pool(ctx):
    out = []
    for tag in ctx.progs:
        B = Backend(ctx, tag)
        r = rng(ctx, "c02" + tag)
        vals = fepool.extremes(B, r) + edge_fes(ctx, 4)
        raws = raw_fe_bytes(ctx, 4) + [ref.b32(v) for v in fepool.extremes(B, r)]
        raw = []
        raws += [ref.b32(2**255 - 1 - k) for k in range(0, 40)] + [ref.b32(ref.p - 1 - 2**k) for k in range(0, 255, 6)] + [ref.b32(2**k) for k in range(0, 255, 6)]
        for b in raws:
            for form in "sndmaAD":
                dst = out if form in "sndma" else raw
                dst.append(case_form(B, tag, b, r.choice(raws), form, "field value form %s of %s" % (form, b.hex())))
                if form in "daAD":
                    dst.append(case_form(B, tag, b, b, form, "field value form %s of %s twice" % (form, b.hex())))
                    dst.append(case_form(B, tag, b, ref.b32((int.from_bytes(b, "little") + 1) % 2**255), form, "field value form %s of %s and next" % (form, b.hex())))
        # unreduced sums and differences: only those that the library itself encodes
        req = fepool.used(ctx, tag)
        if req:
            for c, rs in zip(raw, ctx.drivers[tag].run([dict(c["prog"], out=["z"]) for c in raw])):
                if "out" in rs and any(all(lo <= int(t) <= hi for t, (lo, hi) in zip(rs["out"]["z"], bx[0])) for bx in req.get("BytesInto", [])):
                    out.append(c)
        for v in vals:
            for w in (v, (v + 1) % ref.p, v ^ (1 << r.randrange(254)), r.choice(vals)):
                out.append(case_eq(B, tag, v % ref.p, w % ref.p))
        for k in range(0, 255):
            out.append(case_eq(B, tag, 1 << k, 0))
            out.append(case_eq(B, tag, ref.p - (1 << k) if k else ref.p - 1, 0))
        out += cases_const(B, tag)
        # low values via differences and non-canonical representations
        for bit in (0, 1):
            for v in vals[:12]:
                w = r.choice(vals)
                Z = ["0"] * B.n
                out.append({"tags": [tag], "prog": {"vars": [["x", "FE", Z], ["y", "FE", Z], ["b", "b32", ref.b32(v).hex()], ["c", "b32", ref.b32(w).hex()], ["f", "i32", str(bit)]],
                                                    "steps": [{"m": "FE.SetBytes", "a": ["x", "b"]}, {"m": "FE.SetBytes", "a": ["y", "c"]}, {"m": "FE.Neg", "a": ["y", "y"]},
                                                              {"m": "FE.ConditionalSet", "a": ["x", "y", "f"]}], "out": ["x", "y"]},
                            "expect": {"x": ["fe", str((-w if bit else v) % ref.p)], "y": ["fe", str(-w % ref.p)]}, "note": "ConditionalSet %d" % bit})
        for v in (0, 1, -1, ref.p, ref.p - 1, ref.p + 1, -ref.p, 2**255, 2**256, -2**256, 2**600 + 12345, -(2**513), 255, 256, 2**248, 2**248 - 1):
            out.append({"tags": [tag], "prog": {"vars": [["x", "FE", ["3"] * B.n], ["v", "big", str(v)]], "steps": [{"m": "FE.SetBigInt", "a": ["x", "v"]}], "out": ["x", "v"]},
                        "expect": {"x": ["fe", str(v % ref.p)], "v": ["raw", str(v)]}, "note": "SetBigInt(%d)" % v})
    return out
