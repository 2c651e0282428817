"""C01: field arithmetic is exact on everything the library can produce."""
from .fields import *
from . import fepool

BOUNDS = ("limb boxes: all limb vectors inside the intervals that the closure of the exported operations of both packages reaches "
          "(starting from all byte strings, the constants and the tables); scalar digits arbitrary; all aliasing patterns of an operation's operands")
EXPLAIN = ("Each arithmetic function of the two field backends is executed on symbolic limbs; its result is an exact integer polynomial with explicit "
           "carries and wraps, and the solver shows that it is congruent to the mathematical result modulo 2^255-19 for every limb vector of the box and that the "
           "result lies in the box assumed by its users.")
ASSUME = ["the values of the 32 bytes or scalar digits do not influence limb sizes other than through the encoded operations"]


def analyse(ctx, tag):
    B = Backend(ctx, tag)
    R = BoxRun(B)
    R.fixpoint()
    return {"req": R.maximal(), "M": R.M, "pool": R.pool, "skipped": sorted(set(R.skipped)), "funcs": sorted(R.funcs),
            "alias": R.alias, "runs": len(R.req), "sbox": R.sbox(), "all": list(R.req)}


def analyses(ctx):
    """box analyses of both backends in parallel processes"""
    import multiprocessing as mp

    def work(tag, q):
        try:
            q.send(analyse(ctx, tag))
        except Exception as e:
            q.send("%s: %s" % (type(e).__name__, e))
        q.close()
    procs = []
    for tag in ctx.progs:
        rd, wr = mp.Pipe(False)
        p = mp.Process(target=work, args=(tag, wr), daemon=True)
        p.start()
        wr.close()
        procs.append((tag, rd, p))
    out = {}
    for tag, rd, p in procs:
        try:
            out[tag] = rd.recv() if rd.poll(350) else "time limit"
        except EOFError:
            out[tag] = "died"
        p.kill()
        p.join()
    ctx.cache["box"] = out
    return out


def poly(L, B, limbs):
    f = {}
    for t, w in zip(limbs, B.W):
        f = padd(f, L.poly(t), 1 << w)
    return f


def spec_poly(L, s, V):
    if s == "add":
        return padd(V[0], V[1])
    if s == "sub":
        return padd(V[0], V[1], -1)
    if s == "rsub":
        return padd(V[1], V[0], -1)
    if s == "mul":
        return L.pmul(V[0], V[1])
    if s == "sqr":
        return L.pmul(V[0], V[0])
    if s == "dsqr":
        return pscale(L.pmul(V[0], V[0]), 2)
    k = {"neg": -1, "dbl": 2, "id": 1, "negdbl": -2, "quad": 4}[s]
    return pscale(V[0], k)


def prove_op(B, n, ins, res, boxes, s, claim=None):
    """identity modulo p and the output box"""
    bx = {}
    for v, b in zip(ins, boxes):
        for t, iv in zip(v, b):
            bx[t] = iv if t not in bx else (min(iv[0], bx[t][0]), max(iv[1], bx[t][1]))

    def make(L):
        return padd(poly(L, B, res), spec_poly(L, s, [poly(L, B, v) for v in ins]), -1)
    L = LIF(bx)
    D = make(L)
    st, mod = solve.prove_zero_mod(L, D, ref.p)
    X = None
    if st != "proved":
        st2, L2, X, mod2 = solve.prove_congruent(bx, make, ref.p, timeout=20)
        if st2 == "proved":
            st, L = st2, L2
    sub = 1
    if st == "proved" and claim is not None:
        for t, (lo, hi) in zip(res, claim):
            r, _ = solve.prove_range(L, L.poly(t), lo, hi)
            sub += 1
            if r != "proved":
                return "unknown", "output box %s" % r, L, None, sub
    return st, "identity %s" % st, L, mod, sub


def goal_req(ctx, tag, n, boxes, where, claim):
    B = Backend(ctx, tag)
    s = B.spec(n)
    if s is None:
        return unknown("no field operation recognised")
    ins, res, fns, ret, same = B.fnterms(n)
    st, why, L, mod, sub = prove_op(B, n, ins, res, boxes, s, claim)
    if st == "proved":
        return proved(functions=fns, sub=sub)
    cases = lift(ctx, B, n, s, tmax=40)
    return dict(status="refuted" if st == "failed" or cases else "unknown", detail="%s; used by %s" % (why, where), cases=cases, functions=fns)


def goal_alias(ctx, tag, n, boxes):
    """every aliasing pattern gives the terms of the distinct case"""
    B = Backend(ctx, tag)
    k = B.sig(n)
    s = B.spec(n)
    ins, res, fns, ret, same = B.fnterms(n)
    if s is None:
        return unknown("no field operation recognised")
    rs = []
    if not ret or not same:
        rs.append(unknown("result pointer or operand changed"))
    pats = {1: [], 2: [(0, 0)], 3: [(0, 0, 2), (0, 1, 0), (0, 1, 1), (0, 0, 0)]}.get(k, [])
    for pat in pats:
        ex, st = harness(B.p)
        objs = {}
        ptrs = []
        for i, j in enumerate(pat):
            if j not in objs:
                if j == 0 and 0 not in pat[1:]:
                    v = limbvars("old", B.n, B.ty)
                else:
                    v = limbvars("y%d" % j, B.n, B.ty)
                objs[j] = (Ptr(ex.new(st, v, "o")), v)
            ptrs.append(objs[j][0])
        st, r = ex.call1(st, n, ptrs)
        got = ex.load(st, ptrs[0])
        env = {}
        iv = []
        for a in range(1, k):
            v = objs[pat[a]][1]
            iv.append(v)
            for x, y in zip(ins[a - 1], v):
                env[x] = y
        want = tuple(tm.subst(res, env))
        if want == got and (r == ptrs[0] or r is None):
            rs.append(proved(functions=fns))
            continue
        st2, why, L, mod, sub = prove_op(B, n, iv, got, boxes, s)
        if st2 == "proved":
            rs.append(proved(functions=fns))
        else:
            rs.append(dict(status="refuted" if st2 == "failed" else "unknown", detail="aliasing %s: %s" % (pat, why)))
    return combine(rs + [proved(functions=fns)])


def goal_exported(ctx, tag, m, box):
    """an exported operation composed of the others"""
    B = Backend(ctx, tag)
    n = FE(m)
    s = NAMED[m]
    ins, res, fns, ret, same = B.fnterms(n)
    st, why, L, mod, sub = prove_op(B, n, ins, res, [box] * max(B.sig(n) - 1, 1), s)
    if st == "proved" and ret and same:
        return proved(functions=fns, sub=sub)
    cases = lift(ctx, B, n, s, tmax=60)
    return dict(status="refuted" if st == "failed" or cases else "unknown", detail=why, cases=cases, functions=fns)


def lift(ctx, B, n, s, tmax=60):
    """exact search for failing operands that come from SetBytes, the other operand a constant"""
    t0 = time.time()
    short = "FE." + n.rsplit(".", 1)[-1]
    out = []
    k = B.sig(n)
    if s in ("sqr", "dsqr") or k not in (2, 3):
        return out
    bs = bytesvars("b", 32)
    ex, st = harness(B.p)
    q = Ptr(ex.new(st, B.p.zero(B.tname), "r"))
    st, _ = ex.call1(st, FE("SetBytes"), [q, Ptr(ex.new(st, bs, "b"))])
    free = ex.load(st, q)
    drv = ctx.drivers[B.tag]
    for role in range(k - 1):
        for c in [None] if k == 2 else [ref.p - 1, 1, 2**255 - 20 - 2**200, 2**254 + 3, int("a5" * 31, 16)]:
            if time.time() - t0 > tmax:
                return out
            ex, st = harness(B.p)
            ptrs = [Ptr(ex.new(st, limbvars("old", B.n, B.ty), "r"))]
            for a in range(k - 1):
                if a == role:
                    v = free
                else:
                    st3 = drv.run([{"vars": [["x", "FE", ["0"] * B.n], ["b", "b32", ref.b32(c).hex()]], "steps": [{"m": "FE.SetBytes", "a": ["x", "b"]}], "out": ["x"]}])[0]
                    if "out" not in st3:
                        return out
                    v = tuple(tm.const(int(x), B.ty) for x in st3["out"]["x"])
                ptrs.append(Ptr(ex.new(st, v, "x")))
            st, _ = ex.call1(st, n, ptrs)
            res = ex.load(st, ptrs[0])
            Q = TQ({})
            V = Q.val(bs[:31] + (tm.binop("and", bs[31], tm.const(127, U8)),), 8)
            Rf = {}
            for t, w in zip(res, B.W):
                Rf = fadd(Rf, Q.X.form(t), 1 << w)
            Q.forms.append(Rf)

            def f(v):
                xs = [v if a == role else c for a in range(k - 1)]
                return ARITH[s](*xs)
            c0, c1 = f(0), f(1) - f(0)
            S = z3.Solver()
            S.add(Q.X.facts(Q.forms))
            K, rem = z3.Int("K"), z3.Int("rem")
            S.add(Q.X.zexpr(Rf) == c1 * Q.X.zexpr(V) + c0 + ref.p * K + rem, rem > 0, rem < ref.p)
            r = solve.check(S, "LIA-cex", 12)
            if r == z3.sat:
                m = S.model()
                by = bytes(Q.model(m, b) for b in bs)
                x = int.from_bytes(by, "little") % 2**255
                vals = [x if a == role else c for a in range(k - 1)]
                out.append({"tags": [B.tag], "prog": {
                    "vars": [["r", "FE", ["0"] * B.n]] + [y for a in range(k - 1) for y in (["x%d" % a, "FE", ["0"] * B.n], ["b%d" % a, "b32", (by if a == role else ref.b32(c)).hex()])],
                    "steps": [{"m": "FE.SetBytes", "a": ["x%d" % a, "b%d" % a]} for a in range(k - 1)] + [{"m": short, "a": ["r"] + ["x%d" % a for a in range(k - 1)]}],
                    "out": ["r"]}, "expect": {"r": ["fe", str(f(x) % ref.p)]}, "note": "%s(%s)" % (short, ", ".join(map(str, vals)))})
    return out


def goals(ctx):
    out = []
    for tag, A in analyses(ctx).items():
        lab = "default" if not tag else tag
        if isinstance(A, str):
            out.append(("closure[%s]" % lab, lambda ctx, why: unknown("box analysis: " + why), dict(why=A)))
            continue
        out.append(("closure[%s]" % lab, lambda ctx, A: (proved if not [x for x in A["skipped"] if "SetBigInt" not in x[0]] else unknown)(
            "classes %s, %d distinct operation requests; skipped %s" % ({k: len(v) for k, v in A["pool"].items()}, A["runs"], A["skipped"]), functions=A["funcs"]), dict(A=A)))
        B = Backend(ctx, tag)
        fbox = A["pool"]["FE"][0] if A["pool"].get("FE") else A["sbox"]
        seen = set()
        for i, (n, boxes, w) in enumerate(A["req"]):
            if n not in B.leaf:
                continue
            norm = n.rsplit(".", 1)[-1] in ("Mul", "Square", "DoubledSquare", "normalize", "setReduced")
            try:
                claim = A["M"] if norm else B.outbox(n, boxes)
            except Exception:
                claim = None
            out.append(("%s[%s]#%d" % (n.rsplit(".", 1)[-1], lab, i), goal_req, dict(tag=tag, n=n, boxes=boxes, where=w.rsplit("/", 1)[-1], claim=claim)))
            if n not in seen:
                seen.add(n)
                out.append(("alias %s[%s]" % (n.rsplit(".", 1)[-1], lab), goal_alias, dict(tag=tag, n=n, boxes=boxes)))
        for m in ("Add", "Sub", "Neg", "Mul", "Square", "DoubledSquare"):
            if FE(m) in B.p.funcs:
                out.append(("exported %s[%s]" % (m, lab), goal_exported, dict(tag=tag, m=m, box=fbox)))
    return out


def pool(ctx):
    return fepool.arith(ctx) + fepool.chains(ctx)
