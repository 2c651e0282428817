"""Field elements: the two backends, the box (limb interval) analysis of everything the library can produce."""
import itertools
from .common import *
from symgo.exec import Opaque, merge_val
from symgo.terms import T

PTR = "*"
NAMED = {"Add": "add", "add": "add", "Sub": "sub", "sub": "sub", "Neg": "neg", "Mul": "mul", "Square": "sqr", "DoubledSquare": "dsqr",
         "double": "dbl", "normalize": "id", "setReduced": "id", "Set": "id"}
SPEC2 = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "rsub": lambda a, b: b - a, "mul": lambda a, b: a * b}
SPEC1 = {"neg": lambda a: -a, "sqr": lambda a: a * a, "dsqr": lambda a: 2 * a * a, "dbl": lambda a: 2 * a, "id": lambda a: a,
         "negdbl": lambda a: -2 * a, "quad": lambda a: 4 * a}
ARITH = dict(SPEC2, **SPEC1)


class Backend:
    def __init__(self, ctx, tag):
        self.tag, self.p = tag, ctx.progs[tag]
        d = self.p.under(ED + ".FieldElement")
        self.n = d["len"]
        self.ty = self.p.intty(d["e"])
        self.W = [51 * i for i in range(5)] if self.n == 5 else [(51 * i + 1) // 2 for i in range(10)]
        self.tname = ED + ".FieldElement"
        self.label = "default" if not tag else tag
        self.terms = {}
        self.scan()

    # ---- which functions work on limbs --------------------------------------
    def scan(self):
        P = self.p
        fe, ptr = self.tname, None
        direct, calls = set(), {}
        for n, f in P.funcs.items():
            if f.get("ext") or not f.get("blocks") or ED not in n:
                continue
            cs = set()
            for b in f["blocks"]:
                for ins in b["i"]:
                    if ins["op"] in ("indexaddr", "index") and self.is_fe(ins["x"].get("t"), ins["op"] == "indexaddr"):
                        direct.add(n)
                    if ins["op"] == "call" and "invoke" not in ins and ins["f"].get("k") == "func":
                        cs.add(ins["f"]["n"])
            calls[n] = cs
        need = set(direct)
        while True:
            more = {n for n, cs in calls.items() if n not in need and any(c in need and not self.sig(c) and not self.special(c) for c in cs)}
            # initialisers only build constants
            more = {n for n in more if not n.endswith(".init")}
            if not more:
                break
            need |= more
        self.leaf = {n for n in need if self.sig(n)}
        self.other = {n for n in need if not self.sig(n) and not self.special(n)}

    def is_fe(self, t, ptr):
        if t is None:
            return False
        P = self.p
        if ptr:
            d = P.types.get(t)
            if d is None or d["k"] != "ptr":
                return False
            t = d["e"]
        return t == self.tname

    def sig(self, n):
        """number of operands if all parameters are *FieldElement, else None (0-operand: in place)"""
        f = self.p.funcs.get(n)
        if f is None or not f.get("params"):
            return None
        if not all(self.is_fe(q["t"], True) for q in f["params"]):
            return None
        if not n.startswith("(*%s)." % self.tname):
            return None
        if f.get("res") not in ("(*%s)" % self.tname, "()", "", None):
            return None
        return len(f["params"])

    def special(self, n):
        m = n.rsplit(".", 1)[-1]
        return m if n.startswith("(*%s)." % self.tname) and m in ("SetBytes", "BytesInto", "ConditionalSet") else None

    # ---- the terms of a leaf function ---------------------------------------
    def fnterms(self, n):
        """(operand limb variables, result limb terms) of an arithmetic function, distinct operands"""
        r = self.terms.get(n)
        if r is None:
            k = self.sig(n)
            ex, st = harness(self.p)
            ins = [limbvars("x%d" % a, self.n, self.ty) for a in range(max(k - 1, 1))]
            if k == 1:
                ptrs = [Ptr(ex.new(st, ins[0], "r"))]
            else:
                ptrs = [Ptr(ex.new(st, limbvars("old", self.n, self.ty), "r"))] + [Ptr(ex.new(st, v, "x")) for v in ins]
            st, ret = ex.call1(st, n, ptrs)
            if ex.panics or ex.obligations:
                raise Unsupported("panic paths in " + n)
            res = ex.load(st, ptrs[0])
            same = all(ex.load(st, q) == v for q, v in zip(ptrs[1:], ins))
            r = self.terms[n] = (ins, res, fnames(ex), ret == ptrs[0] or ret is None, same)
        return r

    def value(self, limbs):
        return sum(x << w for x, w in zip(limbs, self.W))

    def spec(self, n):
        """name of the operation a leaf function computes (by name, otherwise guessed from runs of its terms)"""
        m = n.rsplit(".", 1)[-1]
        k = self.sig(n)
        if m in NAMED:
            s = NAMED[m]
            if (s in SPEC2) == (k == 3):
                return s
        ins, res, _, _, _ = self.fnterms(n)
        r = random.Random(5)
        cands = SPEC2 if k == 3 else SPEC1 if k in (1, 2) else {}
        cands = dict(cands)
        for _ in range(6):
            env, vs = {}, []
            for v in ins:
                x = [r.randrange(2**20) for _ in v]
                env.update(zip(v, x))
                vs.append(self.value(x))
            memo = {}
            got = self.value([tm.evaluate(t, env, memo) for t in res]) % ref.p
            cands = {c: f for c, f in cands.items() if f(*vs) % ref.p == got}
        for c in cands:
            return c
        return None

    def lif(self, n, boxes):
        ins, res = self.fnterms(n)[:2]
        bx = {}
        for v, b in zip(ins, boxes):
            for t, iv in zip(v, b):
                bx[t] = iv
        L = LIF(bx)
        return L, ins, res

    def outbox(self, n, boxes):
        L, ins, res = self.lif(n, boxes)
        return tuple((L.lif(t)[1], L.lif(t)[2]) for t in res)


class Poison(Exception):
    pass


def inside(a, b):
    return all(x[0] >= y[0] and x[1] <= y[1] for x, y in zip(a, b))


def hull(a, b):
    return tuple((min(x[0], y[0]), max(x[1], y[1])) for x, y in zip(a, b))


def flat(c):
    """the limb boxes of a class (nested tuples ending in interval pairs)"""
    if isinstance(c[0], int):
        return (c,)
    return tuple(x for y in c for x in flat(y))


def csub(a, b):
    return all(x[0] >= y[0] and x[1] <= y[1] for x, y in zip(flat(a), flat(b)))


def chull(a, b):
    if isinstance(a[0], int):
        return (min(a[0], b[0]), max(a[1], b[1]))
    return tuple(chull(x, y) for x, y in zip(a, b))


class BoxExec(Executor):
    """executes with limb intervals in place of limbs"""
    B = None

    def merge_guard(self, a, b):
        self.nsel = getattr(self, "nsel", 0) + 1
        return tm.var("sel%d" % self.nsel, BOOL), (TRUE,)

    def oblige(self, st, cond, what, ins=None):
        pass

    def _get(self, v, path):
        for k, i in enumerate(path):
            if isinstance(i, int):
                v = v[i]
            else:
                rest = path[k + 1:]
                alts = {self._get(x, rest) for x in v}
                i = iter(alts)
                r = next(i)
                for x in i:
                    self.nsel = getattr(self, "nsel", 0) + 1
                    r = merge_val(tm.var("sel%d" % self.nsel, BOOL), x, r)
                return r
        return v

    def indexaddr(self, st, x, y, ins, f):
        if self.B.is_fe(ins["x"].get("t"), True) and not f["name"].endswith(".init"):
            raise Unsupported("limb access outside the field operations in " + f["name"])
        return Executor.indexaddr(self, st, x, y, ins, f)


class BoxRun:
    KINDS = ("FE", "EP", "CP", "PP", "NP", "JP")

    def __init__(self, B, tmax=200):
        self.B = B
        self.M = None
        self.req = {}            # (function, boxes) -> where
        self.memo = {}
        self.ivm = {}
        self.alias = set()
        self.cost = {}
        self.where = ""
        self.skipped = []
        self.t0 = time.time()
        self.tmax = tmax
        P = B.p
        self.tn = {"FE": ED + ".FieldElement", "EP": ED + ".ExtendedPoint", "CP": ED + ".CompletedPoint", "PP": ED + ".ProjectivePoint",
                   "NP": ED + ".NielsPoint", "JP": ED + ".JacobiPoint", "ET": ED + ".ScalarMultTable"}
        self.kind = {v: k for k, v in self.tn.items() if v in P.types}
        self.kind[MOD + ".Point"] = "EP"
        self.kind[MOD + ".ScalarMultTable"] = "ET"
        self.pool = {k: [] for k in set(self.kind.values())}
        self.norms = {n for n in B.leaf if n.rsplit(".", 1)[-1] in ("Mul", "Square", "DoubledSquare", "normalize", "setReduced")}

    # ---- limb intervals -----------------------------------------------------
    def iv(self, t):
        if t.op == "c":
            return (t.args[0], t.args[0])
        if t.op == "bx":
            return t.args[1:]
        if t.op == "poison":
            raise Poison()
        if t.op == "ite":
            r = self.ivm.get(t.id)
            if r is None:
                a, b = self.iv(t.args[1]), self.iv(t.args[2])
                r = self.ivm[t.id] = (min(a[0], b[0]), max(a[1], b[1]))
            return r
        raise Unsupported("limb term " + t.op)

    def box(self, limbs):
        return tuple(self.iv(t) for t in limbs)

    def atoms(self, box):
        return tuple(tm.mk("bx", (i,) + b, self.B.ty) if b[0] != b[1] else tm.const(b[0], self.B.ty) for i, b in enumerate(box))

    def request(self, n, boxes):
        key = (n, boxes)
        if key not in self.memo:
            ob = self.B.outbox(n, boxes)
            if n in self.norms:
                if self.B.ty[1]:
                    ob = tuple((-max(-l, h), max(-l, h)) for l, h in ob)
                else:
                    ob = tuple((0, h) for l, h in ob)
                if self.M is None:
                    self.M = ob
                elif not inside(ob, self.M):
                    self.M = hull(self.M, ob)
                    self.grown = True
            self.memo[key] = ob
        self.req.setdefault(key, self.where)
        ob = self.memo[key]
        return self.M if n in self.norms else ob

    def hooks(self):
        B = self.B
        H = {}

        def arith(n):
            k = B.sig(n)

            def h(ex, st, args, ins):
                ops = [self.box(ex.load(st, a)) for a in (args[1:] if k > 1 else args)]
                self.alias.add((n, tuple([args.index(a) for a in args])))
                ob = self.request(n, tuple(ops))
                ex.store(st, args[0], self.atoms(ob))
                ex.called[n] = ex.called.get(n, 0) + 1
                return args[0]
            return h
        for n in B.leaf:
            H[n] = arith(n)

        def havoc(n, ts):
            def h(ex, st, args, ins):
                for a, t in zip(args, ts):
                    if isinstance(a, Ptr):
                        u = B.p.under(t)
                        ex.nobj += 1
                        ex.store(st, a, tuple(tm.var("h%d_%d" % (ex.nobj, j), B.p.intty(u["e"])) for j in range(u["len"])))
                return None
            return h
        # scalar recoding: the digits do not matter here
        for n, f in B.p.funcs.items():
            if f.get("ext") or not f.get("blocks") or "$" in n or f.get("res") not in ("()", "", None):
                continue
            ts = []
            for q in f["params"] or []:
                d = B.p.types.get(q["t"])
                e = d["e"] if d and d["k"] == "ptr" else None
                if e is None or B.p.under(e)["k"] != "array" or B.p.intty(B.p.under(e)["e"]) in (None, BOOL) or e in self.kind:
                    break
                ts.append(e)
            else:
                if ts:
                    H[n] = havoc(n, ts)

        def setbytes(ex, st, args, ins):
            ex.load(st, args[1])
            ex.store(st, args[0], self.atoms(self.sbox()))
            return args[0]

        def bytesinto(ex, st, args, ins):
            self.req.setdefault(("BytesInto", (self.box(ex.load(st, args[0])),)), self.where)
            ex.nobj += 1
            ex.store(st, args[1], tuple(tm.var("by%d_%d" % (ex.nobj, i), U8) for i in range(32)))
            return args[0]

        def condset(ex, st, args, ins):
            a, b = self.box(ex.load(st, args[0])), self.box(ex.load(st, args[1]))
            c = args[2]
            if isinstance(c, T) and c.op == "c":
                ex.store(st, args[0], self.atoms(b if c.args[0] else a))
                self.req.setdefault(("ConditionalSet", (a, b)), self.where)
                return None
            self.req.setdefault(("ConditionalSet", (a, b)), self.where)
            ex.store(st, args[0], self.atoms(hull(a, b)))
            return None
        for m, h in (("SetBytes", setbytes), ("BytesInto", bytesinto), ("ConditionalSet", condset)):
            H[FE(m)] = h
        return H

    def sbox(self):
        r = self.memo.get("SetBytes")
        if r is None:
            ex, st = harness(self.B.p)
            bs = bytesvars("b", 32)
            q = Ptr(ex.new(st, self.B.p.zero(self.B.tname), "r"))
            st, _ = ex.call1(st, FE("SetBytes"), [q, Ptr(ex.new(st, bs, "b"))])
            L = LIF({})
            r = self.memo["SetBytes"] = tuple((L.lif(t)[1], L.lif(t)[2]) for t in ex.load(st, q))
        return r

    # ---- classes ------------------------------------------------------------
    def classof(self, v):
        if isinstance(v, T):
            return self.iv(v)
        return tuple(self.classof(x) for x in v)

    def material(self, c):
        if isinstance(c[0], int):
            raise ValueError
        if isinstance(c[0][0], int):
            return self.atoms(c)
        return tuple(self.material(x) for x in c)

    def poison(self, t):
        d = self.B.p.under(t)
        if d["k"] == "array":
            return tuple(self.poison(d["e"]) for _ in range(d["len"]))
        if d["k"] == "struct":
            return tuple(self.poison(f["t"]) for f in d["f"])
        it = self.B.p.intty(t)
        if it == BOOL:
            return tm.var("old", BOOL)
        return tm.mk("poison", (), it) if it == self.B.ty else tm.var("old", it)

    def add(self, kind, c, limit=14):
        L = self.pool[kind]
        if any(csub(c, x) for x in L):
            return False
        L[:] = [x for x in L if not csub(x, c)] + [c]
        if len(L) > limit or kind in ("CP", "ET", "FE"):
            h = L[0]
            for x in L[1:]:
                h = chull(h, x)
            L[:] = [h]
        return True

    def collect(self, t, v):
        """adds the class of value v of type t"""
        k = self.kind.get(t)
        d = self.B.p.under(t)
        if k == "ET":
            c = None
            for row in v:
                ents = [row] if self.B.p.under(t)["e"] and self.kind.get(d["e"]) == "NP" else list(row)
                for e in ents:
                    c2 = self.classof(e)
                    c = c2 if c is None else chull(c, c2)
            return self.add("ET", c)
        if k:
            return self.add(k, self.classof(v))
        if d["k"] == "array" and d["e"] in self.kind:
            r = False
            for x in v:
                try:
                    r |= self.collect(d["e"], x)
                except Poison:
                    pass
            return r
        return False

    def table(self, t, c):
        d = self.B.p.under(t)
        if self.kind.get(d["e"]) == "NP":
            return (self.material(c),) * d["len"]
        return (self.table(d["e"], c),) * d["len"]

    def methods(self):
        out = []
        for n, f in sorted(self.B.p.funcs.items()):
            if f.get("ext") or not f.get("blocks") or "$" in n:
                continue
            m = n.rsplit(".", 1)[-1]
            if not m[:1].isupper() or m in ("String",) or not n.startswith("(*"):
                continue
            if not (n.startswith("(*%s." % ED) or n.startswith("(*%s." % MOD)):
                continue
            ps = []
            ok = True
            for q in f["params"]:
                d = self.B.p.types.get(q["t"])
                e = d["e"] if d and d["k"] == "ptr" else None
                if e in self.kind:
                    ps.append((self.kind[e], e))
                elif e is not None and (self.B.p.under(e)["k"] == "array"):
                    u = self.B.p.under(e)
                    if u["e"] in self.kind:
                        ps.append(("out", e))
                    elif self.B.p.intty(u["e"]) not in (None, BOOL):
                        ps.append(("raw", e))
                    else:
                        ok = False
                elif e == "math/big.Int":
                    ps.append(("big", e))
                elif self.B.p.intty(q["t"]) == I32:
                    ps.append(("flag", q["t"]))
                else:
                    ok = False
            if ok and any(k in self.pool for k, _ in ps):
                out.append((n, ps))
        return out

    def start(self):
        ex = BoxExec(self.B.p)
        ex.B = self.B
        self.init = ex.init_state()
        self.nobj, self.inv = ex.nobj, ex.inv
        for g, t in self.B.p.globals.items():
            v = self.init.mem["g:" + g]
            if t in self.kind and not g.endswith("guard"):
                if t == self.tn["FE"]:
                    continue
                self.where = "global " + g
                if not isinstance(v, tuple):
                    continue
                self.collect(t, v)

    def run1(self, n, ps, combo, poisoned):
        from symgo.exec import State
        ex = BoxExec(self.B.p, self.hk)
        ex.B = self.B
        ex.nobj, ex.inv = self.nobj, self.inv
        ex.deadline = time.time() + 40
        st = self.init.fork()
        args, outs = [], []
        it = iter(combo)
        for i, (k, t) in enumerate(ps):
            if k in self.pool:
                if i == 0 and poisoned:
                    v = self.poison(t)
                else:
                    c = next(it)
                    v = self.table(t, c) if k == "ET" else self.material(c)
                o = Ptr(ex.new(st, v, "a%d" % i))
                outs.append((t, o))
                args.append(o)
            elif k == "out":
                o = Ptr(ex.new(st, self.poison(t), "a%d" % i))
                outs.append((t, o))
                args.append(o)
            elif k == "raw":
                u = self.B.p.under(t)
                ity = self.B.p.intty(u["e"])
                args.append(Ptr(ex.new(st, tuple(tm.var("a%d_%d" % (i, j), ity) for j in range(u["len"])), "a%d" % i)))
            elif k == "big":
                args.append(Ptr(ex.new(st, Opaque("big", ("var", "n")), "a%d" % i)))
            elif k == "flag":
                args.append(tm.const(next(it), I32))
        res = ex.call(st, n, args)
        ch = False
        for st2, _ in res:
            for t, o in outs:
                try:
                    ch |= self.collect(t, ex.load(st2, o))
                except Poison:
                    if (t, o) == outs[0] and poisoned:
                        raise
        return ch

    def seed(self):
        """a first guess of the box of all normalised values"""
        self.grown = False
        for k in (1, 3, 5):
            base = tuple((l * k, h * k) for l, h in (self.M or self.sbox()))
            for n in sorted(self.norms):
                ar = max(self.B.sig(n) - 1, 1)
                L, ins, res = self.B.lif(n, (base,) * ar)
                for t in res:
                    L.lif(t)
                if not L.wraps:
                    self.request(n, (base,) * ar)

    def fixpoint(self, skip=()):
        """closure under all exported methods"""
        self.hk = self.hooks()
        self.seed()
        self.rounds = 0
        self.funcs = set()
        while True:
            self.grown = False
            self.rounds += 1
            self.req = {}
            self.pool = {k: [] for k in self.pool}
            self.start()
            done = set()
            reads = set()
            meths = [x for x in self.methods() if x[0].rsplit(".", 1)[-1] not in skip]
            allow = 0.3
            while True:
                ch = False
                for n, ps in meths:
                    if self.cost.get(n, 0) > allow:
                        continue        # first the cheap ones until they are stable
                    t1 = time.time()
                    if time.time() - self.t0 > self.tmax:
                        raise Unsupported("box analysis: time limit")
                    self.where = n
                    while True:
                        again = False
                        poisoned = n not in reads
                        dims = []
                        for i, (k, t) in enumerate(ps):
                            if k in self.pool and not (i == 0 and poisoned):
                                dims.append(list(self.pool[k]))
                            elif k == "flag":
                                dims.append([0, 1])
                        for combo in itertools.product(*dims):
                            key = (n, poisoned, combo)
                            if key in done:
                                continue
                            done.add(key)
                            try:
                                ch |= self.run1(n, ps, combo, poisoned)
                                self.funcs.add(n)
                            except Poison:
                                if not poisoned:
                                    raise Unsupported("uninitialised read in " + n)
                                reads.add(n)
                                again = True
                                break
                            except PanicPath as e:
                                self.skipped.append((n, "panic " + str(e.msg)))
                            except Unsupported as e:
                                self.skipped.append((n, str(e)))
                        if not again:
                            break
                    self.cost[n] = max(self.cost.get(n, 0), time.time() - t1 if allow < 1 else 0)
                if not ch:
                    if allow > 1:
                        break
                    allow = 1e9
                else:
                    allow = 0.3
            if not self.grown:
                break
        return self

    def maximal(self, names=None):
        """requests that are not subsumed by others"""
        by = {}
        for (n, bx), w in self.req.items():
            if names is None or n in names:
                by.setdefault(n, []).append((bx, w))
        out = []
        for n, L in by.items():
            L.sort(key=lambda x: -sum(h - l for b in x[0] for l, h in b))
            keep = []
            for bx, w in L:
                if not any(all(inside(a, b) for a, b in zip(bx, k)) for k, _ in keep):
                    keep.append((bx, w))
            out += [(n, bx, w) for bx, w in keep]
        return out
