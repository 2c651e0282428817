"""C16: aliasing and frame conditions."""
from .grp import *
from . import grp

BOUNDS = "every listed operation under every aliasing pattern of receiver and operands of equal type, all operand values; byte operands of 32, 43 or 64 bytes; loops unrolled completely"
EXPLAIN = ("Every operation is executed symbolically twice: with distinct variables that hold equal values, and with the variables identified.  Results must agree (solver query where the terms differ), must not "
           "mention the previous contents of the destination, and the set of memory cells written - recorded by the executor, package variables included - must lie in the destination.")
ASSUME = ["the field, scalar and point operations below an operation are taken by their contracts, each of them being checked for aliasing itself", "a data race is what Go's memory model calls one"]

NONE = ["Bytes", "BigInt", "IsNonZeroI", "EqualsI", "Equals", "MarshalBinary", "MarshalText", "Lizard", "IsNegativeI", "IsOneI", "RistrettoEqualsI", "Ristretto"]
DEST1 = ["BytesInto", "RistrettoInto", "LizardInto", "RistrettoElligator2Inverse", "ToJacobiQuarticRistretto"]
OPS16 = {
    "S": ["SetBytes", "SetBytesStrict", "Neg", "Add", "Sub", "SetBigInt", "SetUint64", "Set", "SetZero", "SetOne", "MulSub", "MulAdd", "DeriveShort", "Derive", "SetReduced", "Rand", "Square",
          "Mul", "Inverse", "UnmarshalBinary", "UnmarshalText", "ConditionalSet", "BytesInto", "Bytes", "BigInt", "IsNonZeroI", "EqualsI", "Equals", "MarshalBinary", "MarshalText"],
    "P": ["SetZero", "SetBase", "Set", "Add", "Double", "Sub", "Neg", "SetBytes", "SetElligator", "Rand", "Derive", "SetLizard", "ConditionalSet", "DeriveDalek", "UnmarshalBinary", "UnmarshalText",
          "BytesInto", "LizardInto", "Bytes", "Lizard", "EqualsI", "Equals", "MarshalBinary", "MarshalText", "ScalarMult", "PublicScalarMult", "ScalarMultTable", "PublicScalarMultTable", "ScalarMultBase",
          "PublicScalarMultBase"],
    "T": ["Compute"],
    "EP": ["SetTorsion1", "SetTorsion2", "SetTorsion3", "SetZero", "SetBase", "Set", "ConditionalSet", "Double", "Add", "Sub", "SetCompleted", "SetRistretto", "Ristretto", "RistrettoInto", "Neg",
           "RistrettoEqualsI", "RistrettoElligator2Inverse", "ToJacobiQuarticRistretto"],
    "PP": ["SetZero", "SetExtended", "SetCompleted"],
    "CP": ["AddExtended", "SubExtended", "DoubleProjective", "DoubleExtended", "AddExtendedNiels", "SubExtendedNiels", "SetJacobiQuartic", "SetRistrettoElligator2"],
    "NP": ["SetZero", "Set", "ConditionalSet", "Neg", "SetExtended"],
    "JP": ["Dual"],
    "FE": ["SetI", "SetZero", "SetOne", "Add", "Sub", "Set", "Bytes", "Inverse", "Abs", "IsNegativeI", "IsNonZeroI", "IsOneI", "EqualsI", "Equals", "BigInt", "SetBigInt", "Exp22523", "InvSqrt", "Sqrt",
           "InvSqrtI", "Mul", "Square", "DoubledSquare", "Neg", "ConditionalSet", "BytesInto", "SetBytes"],
}
KEEPS = ["ConditionalSet"]                 # the destination is an operand
VALID = ["SetBytesStrict", "UnmarshalBinary", "UnmarshalText", "SetRistretto", "LizardInto", "Lizard"]      # destination unspecified when rejected
GROUP = ["ScalarMult", "PublicScalarMult", "ScalarMultTable", "PublicScalarMultTable", "ScalarMultBase", "PublicScalarMultBase", "Compute"]
NCOMP = {"EP": 4, "P": 4, "CP": 4, "PP": 3, "NP": 3, "JP": 2}
BYTES = {"UnmarshalText": 43}


def param_kind(t):
    for k, n in list(TYPES.items()) + [("S", MOD + ".Scalar"), ("T", MOD + ".ScalarMultTable"), ("ET", ED + ".ScalarMultTable")]:
        if t == "*" + n:
            return k
    return {"*[32]byte": "b32", "*[16]byte": "b16", "*[64]byte": "b64", "[]byte": "bytes", "int32": "i32", "uint64": "u64", "*math/big.Int": "big",
            "*[8]" + ED + ".FieldElement": "fe8", "*[4]" + ED + ".JacobiPoint": "jp4", ED + ".FieldElement": "FE"}.get(t)


def name_of(kind, m):
    t = {"S": MOD + ".Scalar", "T": MOD + ".ScalarMultTable", "ET": ED + ".ScalarMultTable"}.get(kind) or TYPES[kind]
    return "(*%s).%s" % (t, m)


def dest_of(m):
    return -1 if m in NONE else 1 if m in DEST1 else 0


def partitions(xs):
    """set partitions, as tuples of class indices"""
    if not xs:
        yield ()
        return
    for p in partitions(xs[:-1]):
        for c in range(max(p, default=-1) + 2):
            yield p + (c,)


def patterns(kinds):
    """aliasing patterns: class of every argument; only pointers of equal type are identified"""
    groups = {}
    for i, k in enumerate(kinds):
        if k not in ("i32", "u64", "bytes"):
            groups.setdefault(k, []).append(i)
    ps = [list(partitions(g)) for g in groups.values()]
    out = []
    for combo in itertools.product(*ps):
        cl = ["%d" % i for i in range(len(kinds))]
        for g, c in zip(groups.values(), combo):
            for i, x in zip(g, c):
                cl[i] = "%d" % g[[c.index(x)][0]]
        out.append(tuple(cl))
    return out


# ---- engines -------------------------------------------------------------------

def smul_hooks(B, used):
    """scalar multiplication and squaring as arbitrary functions"""
    H = {}
    for m, k in (("Mul", 2), ("Square", 1), ("MulAdd", 3), ("MulSub", 3)):
        def h(ex, st, args, ins, m=m, k=k):
            used.add(S(m))
            v = tuple(x for a in args[1:1 + k] for x in ex.load(st, a))
            ex.store(st, args[0], tuple(tm.mk("uf", ("S." + m, i) + v, U32) for i in range(8)))
            return args[0]
        H[S(m)] = h
    return H


class Raw:
    """limb-level execution"""

    def __init__(self, B, hooks=None):
        self.B = B
        self.used = set()
        self.ex, self.st = harness(B.p, hooks(B, self.used) if hooks else None)

    def fe(self, name):
        return limbvars(name, self.B.n, self.B.ty)

    def read(self, st, p, kind):
        v = self.ex.load(st, p)
        return flat(v)


class Abs:
    """field elements as abstract values"""

    def __init__(self, B, level, R=None):
        self.B = B
        self.R = R or fev.FRun(B, level)
        self.ex, self.st, self.used = self.R.ex, self.R.st, self.R.used

    def fe(self, name):
        return self.R.fe(fv(name))

    def read(self, st, p, kind):
        v = self.ex.load(st, p)
        if kind == "FE":
            return (self.R.recover(v),)
        if kind in NCOMP or kind == "fe8":
            return tuple(self.R.recover(c) for c in v)
        if kind == "jp4":
            return tuple(self.R.recover(c) for x in v for c in x)
        return flat(v)


class Grp(Abs):
    """points as multiples of a base"""

    def __init__(self, B):
        R = GRun(B, known=known(B), tmax=200)
        Abs.__init__(self, B, 3, R)
        self.n = 0

    def read(self, st, p, kind):
        if kind == "P":
            F = self.R.gget(st, "P", p)
            return (F.key(),)
        if kind == "T":
            return tuple(self.R.gget(st, "NP", Ptr(p.obj, p.path + (i, v))).key() for i in range(32) for v in range(8))
        return flat(self.ex.load(st, p))


def known(B):
    from .c12 import known_base, bases
    return known_base(bases()[1])


def flat(v):
    if isinstance(v, tuple):
        return tuple(y for x in v for y in flat(x))
    return (v,)


def make(E, kind, name, m, grp=False, old=False):
    """initial value of a variable"""
    ex = E.ex
    if kind == "S":
        return limbvars(name, 8, U32)
    if kind in ("b32", "b16", "b64"):
        return bytesvars(name, int(kind[1:]))
    if kind == "FE":
        return E.fe(name)
    if grp and kind == "P" and not old:
        return E.R.gval("EP", Form(1))
    if grp and kind == "T" and not old:
        return tuple(tuple(E.R.gval("NP", Form((v + 1) << (8 * i))) for v in range(8)) for i in range(32))
    if kind == "T":
        return tuple(tuple(tuple(E.fe("%s%d_%d_%d" % (name, i, v, j)) for j in range(3)) for v in range(8)) for i in range(32))
    if kind in NCOMP:
        return tuple(E.fe("%s%d" % (name, j)) for j in range(NCOMP[kind]))
    if kind == "fe8":
        return tuple(E.fe("%s%d" % (name, j)) for j in range(8))
    if kind == "jp4":
        return tuple(tuple(E.fe("%s%d_%d" % (name, i, j)) for j in range(NCOMP["JP"])) for i in range(4))
    if kind == "big":
        from symgo.exec import Opaque
        return Opaque("big", ("var", name))
    raise Unsupported("operand type " + kind)


def engine(B, kind, m):
    if m in GROUP:
        E = Grp(B)
        if m == "PublicScalarMult":
            lim = limbvars("c2", 8, U32)
            E.ex.predicate = True
            E.ex.on_header = E.R.rec = Recoding(lim, 32, [tm.cmp("lt", lim[7], tm.const(1 << 29, U32))])
        return E
    if kind == "S":
        return Raw(B, smul_hooks if m == "Inverse" else None)
    if kind == "FE":
        n = FE(m)
        return Raw(B) if n in B.leaf or B.special(n) or m in ("IsNegativeI", "SetBigInt", "BigInt", "Bytes") else Abs(B, 2 if m in ("InvSqrt", "Sqrt", "InvSqrtI", "Abs") else 1)
    return Abs(B, 3)


def execute(B, kind, m, kinds, cl, distinct, flag=None):
    """runs the operation; returns (engine, state, result, pointers, classes, initial values)"""
    E = engine(B, kind, m)
    if m == "PublicScalarMult" and cl[2] != "2":
        raise Unsupported("classes")
    ex, st = E.ex, E.st
    d = dest_of(m)
    objs, args, init = {}, [], []
    for i, (k, c) in enumerate(zip(kinds, cl)):
        if k == "i32":
            args.append(tm.var("flag", I32) if flag is None else tm.const(flag, I32) if isinstance(flag, int) else flag)
            init.append(None)
            continue
        if k == "u64":
            args.append(tm.var("u", U64))
            init.append(None)
            continue
        if k == "bytes":
            n = BYTES.get(m, 32)
            v = bytesvars("m%d" % i, n)
            o = ex.new(st, v, "m")
            args.append(Slice(o, (), 0, n, n))
            init.append(("bytes", Ptr(o), v))
            continue
        isold = i == d and m not in KEEPS and (distinct or cl.count(c) == 1)
        if not distinct and c in objs:
            p, v = objs[c]
        else:
            v = make(E, k, "old" if isold else "c%s" % c, m, m in GROUP, isold)
            p = Ptr(ex.new(st, v, "a%d" % i))
            objs.setdefault(c, (p, v))
        args.append(p)
        init.append((k, p, v))
    pre = set(st.mem)
    ex.writes = set()
    st, ret = ex.call1(st, name_of(kind, m), args)
    return E, st, ret, args, init, pre


def result(E, st, ret, args, pre, kinds, d):
    """(comparable value of the result, problem)"""
    r = ret if isinstance(ret, tuple) and not (ret and ret[0] in ("iface", "str", "strof")) else (ret,)
    out, prob = [], None
    for x in r:
        if isinstance(x, Ptr):
            if any(isinstance(a, Ptr) and a == x for a in args):
                out.append("arg%d" % [i for i, a in enumerate(args) if isinstance(a, Ptr) and a == x][0] if False else "argument")
            else:
                if x.obj in pre:
                    prob = "returns a pointer to shared memory"
                v = E.ex.load(st, x)
                out.append(repr(v.data) if hasattr(v, "data") else flat(v))
        elif isinstance(x, Slice):
            if x.obj in pre:
                prob = "returns shared memory"
            out.append(tuple(E.ex.sl_list(st, x)))
        elif isinstance(x, tuple) and x and x[0] == "iface":
            out.append("error")
        elif isinstance(x, Mux):
            out.append(muxkey(x))
        else:
            out.append(flat(x) if x is not None else None)
    if d >= 0:
        out.append(E.read(st, args[d], kinds[d]))
    return tuple(out), prob


def muxkey(x):
    if isinstance(x, Mux):
        return ("mux", x.c, muxkey(x.a), muxkey(x.b))
    if isinstance(x, tuple) and x and x[0] == "iface":
        return "error"
    if isinstance(x, Slice):
        return ("slice", x.len)
    return x


def support(v, acc=None):
    acc = set() if acc is None else acc
    ts = [x for x in deep(v) if isinstance(x, T)]
    return {u.args[0] for u in tm.subterms(ts) if u.op in ("var", "fv")} if ts else set()


def deep(v):
    if isinstance(v, tuple):
        for x in v:
            yield from deep(x)
    else:
        yield v


def equal(a, b):
    """None if equal, otherwise a description; the solver decides where the terms differ"""
    xs, ys = list(deep(a)), list(deep(b))
    if len(xs) != len(ys):
        return "shape", 0
    n = 0
    gs = []
    for x, y in zip(xs, ys):
        if x is y or (not isinstance(x, T) and x == y):
            continue
        if isinstance(x, T) and isinstance(y, T) and x.ty == y.ty and x.ty != FTY:
            gs.append(tm.cmp("eq", x, y) if x.ty != BOOL else tm.bor(tm.band(x, y), tm.band(tm.bnot(x), tm.bnot(y))))
        elif isinstance(x, T) and isinstance(y, T) and x.ty == FTY and y.ty == FTY:
            n += 1
            fails = fev.Split().run([x, y], lambda c, t, bo, pa: None if c.zero(S_(t[0], t[1])) else "differ")
            if fails:
                return "values differ", n
        else:
            return "values differ", n
    if gs:
        n += 1
        if solve.prove_bv(tm.band(*gs), timeout=60)[0] != "proved":
            return "values differ", n
    return None, n


def goal(ctx, tag, kind, m):
    B = Backend(ctx, tag)
    n = name_of(kind, m)
    f = B.p.funcs.get(n)
    if f is None or f.get("ext") or not f.get("blocks"):
        return unknown("no such method")
    kinds = [param_kind(q["t"]) for q in f["params"]]
    if None in kinds:
        return unknown("operand types %s" % [q["t"] for q in f["params"]])
    d = dest_of(m)
    fns, sub = set(), 0
    flags = (0, 1) if "i32" in kinds and kind not in ("S", "FE") else (None,)
    for cl, flag in itertools.product(patterns(kinds), flags):
        aliased = len(set(cl)) < len(cl)
        res = []
        for distinct in ((True, False) if aliased else (True,)):
            E, st, ret, args, init, pre = execute(B, kind, m, kinds, cl, distinct, flag)
            fns.update(fnames(E.ex))
            fns.update(E.used)
            why = None
            if [1 for g, _, _ in E.ex.panics if g is not FALSE] and m != "Rand":
                why = "panic"
            v, prob = result(E, st, ret, args, pre, kinds, d)
            dobj = args[d].obj if d >= 0 else None
            wr = sorted({o for o, _ in E.ex.writes if o in pre and o != dobj}, key=str)
            if wr:
                why = "writes %s" % wr[0]
            if prob:
                why = prob
            for k, a in enumerate(init):
                if a is None or a[1].obj == dobj:
                    continue
                if E.ex.load(st, a[1]) != a[2]:
                    why = "operand changed"
            if d >= 0 and distinct and m not in KEEPS and m not in VALID and not (kind == "P" and m == "SetBytes") and any(str(s).startswith("old") for s in support(v)):
                why = "result depends on the previous contents"
            sub += 3
            if why:
                return dict(status="unknown", detail="%s, pattern %s: %s" % (m, cl, why), functions=sorted(fns),
                            cases=cases(ctx, B, tag, kind, m, kinds, cl, 12) + par_cases(ctx, B, tag, kind, m, kinds, cl))
            res.append(v)
        if aliased:
            w, q = equal(res[0], res[1])
            sub += max(q, 1)
            if w:
                return dict(status="unknown", detail="%s, pattern %s: %s" % (m, cl, w), functions=sorted(fns), cases=cases(ctx, B, tag, kind, m, kinds, cl, 30))
    return proved(functions=sorted(fns), sub=sub)


def goal_big(ctx, tag, kind):
    """SetBigInt, for every byte length of the reduced value"""
    from symgo.exec import Opaque
    B = Backend(ctx, tag)
    ex, st = harness(B.p)
    out = Ptr(ex.new(st, limbvars("old", 8, U32) if kind == "S" else limbvars("old", B.n, B.ty), "r"))
    v = Opaque("big", ("var", "x", None, None))
    x = Ptr(ex.new(st, v, "x"))
    pre = set(st.mem)
    ex.writes = set()
    ex.merge = False
    outs = ex.call(st, name_of(kind, "SetBigInt"), [out, x])
    kinds = [kind, "big"]
    bad = None
    for s2, r in outs:
        if r != out or ex.load(s2, x) != v:
            bad = "operand changed"
        if any(str(s).startswith("old") for s in support(flat(ex.load(s2, out)))):
            bad = "result depends on the previous contents"
    if {o for o, _ in ex.writes if o in pre and o != out.obj}:
        bad = "writes elsewhere"
    if bad:
        return unknown(bad, functions=fnames(ex), cases=cases(ctx, B, tag, kind, "SetBigInt", kinds, ("0", "1"), 20) + par_cases(ctx, B, tag, kind, "SetBigInt", kinds, ("0", "1")))
    return proved(functions=fnames(ex), sub=3 * len(outs))


def goal_leaf(ctx, tag, n):
    """an internal field operation"""
    B = Backend(ctx, tag)
    k = B.sig(n)
    sub = 0
    for cl in patterns(["FE"] * max(k, 1)):
        res = []
        for distinct in (True, False):
            ex, st = harness(B.p)
            objs, ptrs, vals = {}, [], []
            for i, c in enumerate(cl):
                isold = i == 0 and k > 1 and (distinct or cl.count(c) == 1)
                if not distinct and c in objs:
                    ptrs.append(objs[c])
                    vals.append(None)
                    continue
                v = limbvars("old" if isold else "c" + c, B.n, B.ty)
                p = Ptr(ex.new(st, v, "a"))
                objs.setdefault(c, p)
                ptrs.append(p)
                vals.append(v)
            pre = set(st.mem)
            ex.writes = set()
            st, ret = ex.call1(st, n, ptrs)
            if {o for o, _ in ex.writes if o in pre} - {ptrs[0].obj}:
                return unknown("writes elsewhere", functions=fnames(ex))
            v = ex.load(st, ptrs[0])
            if distinct and k > 1 and any(str(s).startswith("old") for s in support(v)):
                return unknown("depends on the previous contents", functions=fnames(ex))
            res.append(v)
            sub += 2
        w, _ = equal(res[0], res[1])
        if w:
            return unknown("pattern %s: %s" % (cl, w), functions=fnames(ex))
    return proved(functions=fnames(ex), sub=sub)


def goals(ctx):
    out = []
    for tag in ctx.progs:
        lab = "default" if not tag else tag
        B = Backend(ctx, tag)
        for k, ms in OPS16.items():
            for m in ms:
                if m == "SetBigInt":
                    out.append(("%s.%s[%s]" % (k, m, lab), goal_big, dict(tag=tag, kind=k)))
                    continue
                out.append(("%s.%s[%s]" % (k, m, lab), goal, dict(tag=tag, kind=k, m=m, _w=3 if m == "PublicScalarMult" else 2 if m in GROUP else 0)))
        for n in sorted(B.leaf):
            out.append(("%s[%s]" % (n.rsplit("/", 1)[-1], lab), goal_leaf, dict(tag=tag, n=n)))
    return out


# ---- concrete side --------------------------------------------------------------

class Gen:
    def __init__(self, ctx, B, salt):
        self.r = rng(ctx, "c16" + salt)
        self.B = B
        self.pts = getattr(ctx, "c16pts", None) or sample_points(ctx, 3, even=True)
        ctx.c16pts = self.pts
        self.sc, self.fes = edge_scalars(ctx, 6), edge_fes(ctx, 6)

    def val(self, kind, m, i):
        r, B = self.r, self.B
        if kind == "S":
            return limbs32(r.choice(self.sc))
        if kind == "FE":
            return limbs_of(B, r.choice(self.fes))
        if kind in ("EP", "P", "CP", "PP", "NP"):
            return rep(B, kind, r.choice(self.pts), r.randrange(1, ref.p), r.randrange(1, ref.p))
        if kind == "JP":
            return [limbs_of(B, x) for x in jacobi(r.randrange(ref.p))]
        if kind in ("b32", "b16", "b64"):
            n = int(kind[1:])
            if m in ("SetBytes", "SetRistretto") and n == 32 and r.random() < .6:
                return ref.encode(r.choice(self.pts)).hex()
            if m == "SetBytesStrict" and r.random() < .6:
                return ref.b32(r.choice(self.sc)).hex()
            return bytes(r.randrange(256) for _ in range(n)).hex()
        if kind == "bytes":
            if m == "UnmarshalText":
                import base64
                return base64.urlsafe_b64encode(ref.encode(r.choice(self.pts))).rstrip(b"=").hex()
            if m == "UnmarshalBinary":
                return ref.encode(r.choice(self.pts)).hex()
            return bytes(r.randrange(256) for _ in range(32)).hex()
        if kind == "i32":
            return str(r.randrange(2))
        if kind == "u64":
            return str(r.randrange(2**64))
        if kind == "big":
            return str(r.randrange(-2**300, 2**300))
        return None


def jacobi(t):
    """any pair serves"""
    return [t, t * t % ref.p]


def one(G, tag, kind, m, kinds, cl, glob=True):
    """the operation on distinct variables and on identified ones"""
    d = dest_of(m)
    vs, a1, a2 = [], [], []
    byc, exp, out = {}, {}, []
    pre = []
    for i, (k, c) in enumerate(zip(kinds, cl)):
        if c not in byc:
            byc[c] = G.val(k, m, i)
            vs.append(["y" + c, k, byc[c]])
        v = byc[c]
        init = G.val(k, m, i) if i == d and m not in KEEPS + VALID + ["SetBytes"] else v
        vs.append(["x%d" % i, k, init])
        a1.append("x%d" % i)
        a2.append("y" + c)
        if k == "T" and i != d:
            q = G.val("P", m, i)
            vs.append(["q%d" % i, "P", q])
            pre += [{"m": "T.Compute", "a": ["x%d" % i, "q%d" % i]}, {"m": "T.Compute", "a": ["y" + c, "q%d" % i]}]
        elif i != d and k not in ("i32", "u64"):
            exp["x%d" % i] = ["raw", init]
            if cl[d] != c or d < 0:
                exp["y" + c] = ["raw", v]
    if m == "Rand":
        vs.append(["seed", "bytes", "%0128x" % G.r.randrange(2**512)])
        rnd = [{"m": "drv.rand", "a": ["seed"]}]
    else:
        rnd = []
    nres = 2
    steps = pre + rnd + [{"m": "%s.%s" % (kind, m), "a": a1, "r": ["r1", "s1"]}] + rnd + [{"m": "%s.%s" % (kind, m), "a": a2, "r": ["r2", "s2"]}]
    outs = set(exp)
    if d >= 0:
        exp["y" + cl[d]] = ["same", "x%d" % d, kinds[d]]
        outs |= {"x%d" % d, "y" + cl[d]}
    elif m not in ("IsNonZeroI",):
        exp["r2"] = ["same", "r1", "raw"]
        outs |= {"r1", "r2"}
    return {"tags": [tag], "prog": {"vars": vs, "steps": steps, "out": sorted(outs), "globals": glob}, "expect": exp, "note": "%s.%s, aliasing pattern %s" % (kind, m, "".join(cl))}


def cases(ctx, B, tag, kind, m, kinds, cl, n):
    G = Gen(ctx, B, "%s%s%s%s" % (tag, kind, m, cl))
    return [one(G, tag, kind, m, kinds, cl) for _ in range(n)]


def par_cases(ctx, B, tag, kind, m, kinds, cl):
    """two goroutines with their own destination and shared operands"""
    G = Gen(ctx, B, "par%s%s%s%s" % (tag, kind, m, cl))
    out = []
    d = dest_of(m)
    for _ in range(3):
        vs, args, pre = [], [], []
        for i, k in enumerate(kinds):
            vs.append(["x%d" % i, k, G.val(k, m, i)])
            args.append("x%d" % i)
        if m == "Rand" or any(k == "T" for k in kinds[1:]):
            continue
        out.append({"tags": [tag], "prog": {"vars": vs, "steps": [{"m": "%s.%s" % (kind, m), "a": args, "r": []}] * 3, "out": [], "par": ["x%d" % d] if d >= 0 else []}, "expect": {},
                    "note": "%s.%s in two goroutines" % (kind, m)})
    return out


def pool(ctx):
    out = []
    for tag in ctx.progs:
        B = Backend(ctx, tag)
        for kind, ms in OPS16.items():
            for m in ms:
                f = B.p.funcs.get(name_of(kind, m))
                if f is None:
                    continue
                kinds = [param_kind(q["t"]) for q in f["params"]]
                if None in kinds:
                    continue
                for j, cl in enumerate(patterns(kinds)):
                    G = Gen(ctx, B, "pool%s%s%s%s" % (tag, kind, m, cl))
                    for t in range(2 if m in GROUP else 3 if not ctx.thorough else 30):
                        out.append(one(G, tag, kind, m, kinds, cl, glob=t == 0))
    return out
