"""C17: control flow and memory accesses do not depend on secrets."""
from .grp import *
from . import c16
from .c16 import OPS16, name_of, param_kind, flat, NCOMP

BOUNDS = "every constant-time operation, all operand values, byte operands of 32 or 64 bytes; loops unrolled completely; control flow and indices as the source has them (the compiler's output is not examined)"
EXPLAIN = ("Every operation is executed symbolically; each branch condition, index and aggregate comparison that remains symbolic is an event.  z3 decides by self-composition whether two inputs with the same "
           "reported outcome can differ in an event; a model is replayed on an instrumented build that records the same events.")
ASSUME = ["instructions without branches take a time independent of their operands; crypto/subtle, math/bits, the hash functions and encoding/binary are constant-time",
          "callees that are taken by contract are operations checked themselves"]

EXEMPT = {"PublicScalarMult", "PublicScalarMultTable", "PublicScalarMultBase", "BigInt", "SetBigInt", "MarshalText", "UnmarshalText", "String"}
VALID = {("S", "SetBytesStrict"), ("P", "SetBytes"), ("P", "UnmarshalBinary"), ("EP", "SetRistretto"), ("P", "LizardInto"), ("P", "Lizard"), ("S", "UnmarshalBinary"), ("S", "Rand"), ("P", "Rand")}
# outcomes of these are reported to the caller of the operation that calls them
REPORTS = {("P", "Lizard"): [MOD + ".Point).LizardInto"]}


def ops():
    return [(k, m) for k, ms in OPS16.items() for m in ms if m not in EXEMPT]


def outcome(ret):
    """boolean terms that say what is reported"""
    if isinstance(ret, T):
        return [ret] if ret.ty == BOOL else []
    if isinstance(ret, Mux):
        acc = []

        def leaf(x, g):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == "iface" and isinstance(x[2], Mux):
                x = x[2]
            if isinstance(x, Mux):
                leaf(x.a, g + (x.c,))
                leaf(x.b, g + (tm.bnot(x.c),))
            else:
                acc.append((x, tm.band(*g)))
        leaf(ret, ())
        nil = [g for x, g in acc if x is None]
        return [tm.bor(*nil)] + [g for x, g in acc if x is not None]
    if isinstance(ret, tuple) and not (ret and ret[0] in ("iface", "str", "strof")):
        return [t for x in ret for t in outcome(x)]
    return []


def bool_atoms(ts):
    """boolean structure with everything else replaced by a fresh variable; returns (rewriters, atoms)"""
    memo = {}

    def rw(t, tag):
        if t.op == "c":
            return t
        k = (t, tag)
        if k not in memo:
            if t.op in ("band", "bor"):
                memo[k] = (tm.band if t.op == "band" else tm.bor)(*[rw(a, tag) for a in t.args])
            elif t.op == "bnot":
                memo[k] = tm.bnot(rw(t.args[0], tag))
            else:
                at.setdefault(t, len(at))
                memo[k] = tm.var("at%d%s" % (at[t], tag), BOOL)
        return memo[k]
    at = {}
    return [tuple(rw(t, tag) for tag in ("", "'")) for t in ts]


def iff(a, b):
    return tm.bor(tm.band(a, b), tm.band(tm.bnot(a), tm.bnot(b)))


def check_events(E, ret, kind, m):
    """None or (description, event) ; and the number of queries"""
    O = outcome(ret) if (kind, m) in VALID else []
    n = 0
    skip = REPORTS.get((kind, m), [])
    for c, g, fn, *_ in E.ex.branches:
        if any(fn.endswith(s) for s in skip):
            continue
        G = tm.band(*g) if g else TRUE
        ev = [tm.band(G, c), tm.band(G, tm.bnot(c))]
        if any(str(v).startswith("rand_ok") for v in c16.support((c,))) and m == "Rand":
            continue
        rs = bool_atoms(O + ev)
        same = [iff(a, b) for a, b in rs[:len(O)]]
        n += 1
        s, _ = solve.prove_bv(tm.band(*[iff(a, b) for a, b in rs[len(O):]]), assume=same, timeout=30)
        if s == "proved":
            continue
        # a condition that is the same for all values
        const = False
        if all(u.ty != FTY and u.op not in ("uf", "fl", "fby", "fz", "fsg") for u in tm.subterms(ev)):
            for e in ev:
                n += 1
                if solve.prove_bv(tm.bnot(e), timeout=20)[0] == "proved":
                    const = True
                    break
        if const:
            continue
        return "branch in %s depends on the operands" % fn.rsplit("/", 1)[-1], (c, g), n
    for y, g, fn in E.ex.indices:
        if any(fn.endswith(s) for s in skip):
            continue
        return "index in %s depends on the operands" % fn.rsplit("/", 1)[-1], (y, g), n
    return None, None, n


def concrete(v, kind, env):
    if kind == "S" or kind == "FE":
        return [str(tm.cv(t) if tm.isc(t) else env.get(t.args[0], env.get(t, 0))) for t in v]
    return bytes(tm.cv(t) if tm.isc(t) else env.get(t.args[0], env.get(t, 0)) & 255 for t in v).hex()


def models(ctx, B, tag, kind, m, kinds, E, init, ev):
    """inputs on which the event differs, from the solver"""
    y, g = ev
    if any(u.ty == FTY or u.op in ("uf", "fl", "fby", "fz", "fsg") for u in tm.subterms([y] + list(g))):
        return []
    pre = list(g)
    for a in init:
        if a is None:
            continue
        k, _, v = a
        if k == "S":
            pre.append(tm.cmp("lt", v[7], tm.const(1 << 28, U32)))
        elif k == "FE":
            for i, t in enumerate(v):
                b = 51 if B.n == 5 else 26 - (i & 1)
                pre.append(tm.cmp("lt", t, tm.const(1 << b, t.ty)))
                if B.n == 10:
                    pre.append(tm.cmp("le", tm.const(0, t.ty), t))
        elif k not in ("b32", "b64", "b16", "bytes"):
            return []
    goals = [y, tm.bnot(y)] if y.ty == BOOL else None
    envs = []
    if goals is None:
        s, env = solve.prove_bv(FALSE, assume=pre, timeout=30)
        if env is None:
            return []
        envs.append(env)
        try:
            y0 = tm.evaluate(y, {t: env.get(t.args[0], env.get(t, 0)) for t in tm.subterms([y]) if t.op == "var"})
        except Exception:
            y0 = 0
        goals = [tm.cmp("eq", y, tm.const(y0, y.ty))]
    for q in goals:
        s, env = solve.prove_bv(q, assume=pre, timeout=60)
        if env is not None:
            envs.append(env)
    out = []
    for env in envs:
        vs, args = [], []
        for i, (k, a) in enumerate(zip(kinds, init)):
            if k in ("i32", "u64"):
                nm = "flag" if k == "i32" else "u"
                t = tm.var(nm, I32 if k == "i32" else U64)
                val = str(env.get(nm, env.get(t, 0)))
                if k == "i32":
                    val = str(int(val) & 1)
            else:
                val = concrete(a[2], a[0], env)
            vs.append(["x%d" % i, k, val])
        out.append(prog(tag, kind, m, kinds, vs))
    return out


def prog(tag, kind, m, kinds, vs, pre=()):
    steps = list(pre) + [{"m": "%s.%s" % (kind, m), "a": ["x%d" % i for i in range(len(kinds))], "r": ["r0", "r1"]}]
    out = []
    if (kind, m) in VALID and m != "Rand":
        out = ["r0?"] if m == "Lizard" else ["r0"]
    return {"tags": [tag], "prog": {"vars": vs, "steps": steps, "out": out, "ct": "%s.%s" % (kind, m)}, "expect": {}, "note": "%s.%s" % (kind, m)}


def goal(ctx, tag, kind, m):
    B = Backend(ctx, tag)
    f = B.p.funcs.get(name_of(kind, m))
    if f is None or f.get("ext") or not f.get("blocks"):
        return unknown("no such method")
    kinds = [param_kind(q["t"]) for q in f["params"]]
    if None in kinds:
        return unknown("operand types %s" % [q["t"] for q in f["params"]])
    cl = tuple(str(i) for i in range(len(kinds)))
    flag = tm.b2i(tm.var("flagbit", BOOL), I32) if "i32" in kinds and kind not in ("S", "FE") else None
    E, st, ret, args, init, pre = c16.execute(B, kind, m, kinds, cl, True, flag)
    fns = sorted(set(fnames(E.ex)) | set(E.used))
    why, ev, n = check_events(E, ret, kind, m)
    if why:
        cs = models(ctx, B, tag, kind, m, kinds, E, init, ev)
        return dict(status="unknown", detail=why, functions=fns, cases=cs + search_cases(ctx, B, tag, kind, m, kinds, 60))
    chk = {name_of(*o) for o in ops()} | set(B.leaf)
    un = [u for u in E.used if u not in chk and not helper(B, u)]
    if un:
        return dict(status="unknown", detail="contract of an unchecked function: %s" % un[0], functions=fns, cases=[])
    return proved("%d events" % (len(E.ex.branches) + len(E.ex.indices)), functions=fns, sub=1 + n)


HELPERS = {}


def helper(B, n):
    """a function taken by contract that is not an operation itself: execute it on its own"""
    if n not in HELPERS:
        HELPERS[n] = False
        f = B.p.funcs.get(n)
        if f and f.get("blocks"):
            kinds = [param_kind(q["t"]) for q in f["params"]]
            try:
                ex, st = harness(B.p)
                args = []
                for i, q in enumerate(f["params"]):
                    args.append(sym(ex, st, B, q["t"], "h%d" % i))
                ex.call(st, n, args)
                HELPERS[n] = not ex.branches and not ex.indices
            except Exception:
                HELPERS[n] = False
    return HELPERS[n]


def sym(ex, st, B, t, name):
    """a symbolic argument of the type"""
    u = B.p.under(t)
    if u["k"] == "ptr":
        return Ptr(ex.new(st, symv(B, u["e"], name), name))
    return symv(B, t, name)


def symv(B, t, name):
    u = B.p.under(t)
    if u["k"] == "array":
        return tuple(symv(B, u["e"], "%s_%d" % (name, i)) for i in range(u["len"]))
    if u["k"] == "struct":
        return tuple(symv(B, f["t"], "%s_%s" % (name, f["n"])) for f in u["f"])
    ty = {"int32": I32, "uint32": U32, "uint64": U64, "int64": (64, True), "uint8": U8, "byte": U8, "int8": (8, True), "bool": BOOL, "int": (64, True)}.get(u.get("n"))
    if ty is None:
        raise Unsupported("type " + t)
    return tm.var(name, ty)


def goal_leaf(ctx, tag, n):
    B = Backend(ctx, tag)
    ex, st = harness(B.p)
    ptrs = [Ptr(ex.new(st, limbvars("x%d" % i, B.n, B.ty), "x")) for i in range(max(B.sig(n), 1))]
    ex.call(st, n, ptrs)
    if ex.branches or ex.indices:
        return unknown("depends on the operands: %s" % (ex.branches + ex.indices)[0][2], functions=fnames(ex))
    return proved(functions=fnames(ex), sub=1)


def goals(ctx):
    out = []
    for tag in ctx.progs:
        lab = "default" if not tag else tag
        B = Backend(ctx, tag)
        for k, m in ops():
            out.append(("%s.%s[%s]" % (k, m, lab), goal, dict(tag=tag, kind=k, m=m, _w=2 if m in c16.GROUP else 0)))
        for n in sorted(B.leaf):
            out.append(("%s[%s]" % (n.rsplit("/", 1)[-1], lab), goal_leaf, dict(tag=tag, n=n)))
    return out


# ---- concrete side ---------------------------------------------------------------

class Gen(c16.Gen):
    """values, special ones included"""

    def val(self, kind, m, i):
        r, B = self.r, self.B
        if kind in ("EP", "P", "CP", "PP") and r.random() < .3:
            return rep(B, kind, r.choice(self.pts), 1, 1)
        if kind in ("b32", "b64", "b16") and r.random() < .4:
            n = int(kind[1:])
            return r.choice(["00" * n, "ff" * n, "01" + "00" * (n - 1), "80" * n, "00" * (n - 1) + "80", "ec" + "ff" * (n - 2) + "7f", "ed" + "ff" * (n - 2) + "7f"])
        if kind == "b32" and m in ("SetRistretto", "SetBytes") and r.random() < .3:
            return ref.b32(r.choice(self.fes)).hex()
        if kind == "bytes" and r.random() < .3:
            return r.choice(["00", "ff"]) * 32
        if kind == "i32":
            return str(r.randrange(2))
        return c16.Gen.val(self, kind, m, i)


def lizards(ctx, B, r):
    """points that hold data, at every position"""
    return [ref.elligator_fe(int.from_bytes(ref.lizard_buf(bytes(r.randrange(256) for _ in range(16))), "little")) for _ in range(8)]


def search_cases(ctx, B, tag, kind, m, kinds, n):
    G = Gen(ctx, B, "ct%s%s%s%d" % (tag, kind, m, n))
    out = []
    same = [G.val(k, m, i) for i, k in enumerate(kinds)]
    liz = lizards(ctx, B, G.r) if m in ("Lizard", "LizardInto", "RistrettoElligator2Inverse") else None
    for j in range(n):
        vs, pre = [], []
        for i, k in enumerate(kinds):
            v = G.val(k, m, i)
            if k == "T":
                vs += [["x%d" % i, k, None], ["q%d" % i, "P", G.val("P", m, i)]]
                if i:
                    pre.append({"m": "T.Compute", "a": ["x%d" % i, "q%d" % i]})
                continue
            if liz and k in ("P", "EP") and j % 2:
                v = rep(B, k, G.r.choice(liz), G.r.randrange(1, ref.p), 1)
            if k == "bytes" and m == "UnmarshalBinary":
                v = G.val("b32", "SetBytes", i)
            # equal operands now and then
            if j % 5 == 4 and i and kinds[i - 1] == k and k not in ("i32", "u64"):
                v = vs[-1][2]
            vs.append(["x%d" % i, k, v])
        if m == "Rand":
            vs.append(["seed", "bytes", G.r.choice(["00" * 64, "ff" * 64, "%0128x" % G.r.randrange(2**512)])])
            pre = [{"m": "drv.rand", "a": ["seed"]}]
        out.append(prog(tag, kind, m, kinds, vs, pre))
    return out


def pool(ctx):
    out = []
    for tag in ctx.progs:
        B = Backend(ctx, tag)
        for kind, m in ops():
            f = B.p.funcs.get(name_of(kind, m))
            if f is None:
                continue
            kinds = [param_kind(q["t"]) for q in f["params"]]
            if None in kinds:
                continue
            out += search_cases(ctx, B, tag, kind, m, kinds, 200 if ctx.thorough else 30)
    return out
