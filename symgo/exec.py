"""Symbolic executor for the go/ssa dump produced by ssagen."""
import heapq
import json
import os
import sys
import time
from . import terms as tm
from . import stdlib
from .terms import T, TRUE, FALSE, BOOL

sys.setrecursionlimit(20000)
INT = {"int8": (8, True), "int16": (16, True), "int32": (32, True), "int64": (64, True), "int": (64, True),
       "uint8": (8, False), "uint16": (16, False), "uint32": (32, False), "uint64": (64, False), "uint": (64, False),
       "byte": (8, False), "rune": (32, True), "uintptr": (64, False),
       "untyped int": (64, True), "untyped rune": (32, True)}


class Unsupported(Exception):
    pass


class PanicPath(Exception):
    def __init__(self, msg):
        self.msg = msg


class Ptr:
    __slots__ = ("obj", "path")

    def __init__(self, obj, path=()):
        self.obj, self.path = obj, path

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.path == o.path

    def __hash__(self):
        return hash((self.obj, self.path))

    def __repr__(self):
        return "&%s%s" % (self.obj, list(self.path))


class Slice:
    __slots__ = ("obj", "path", "off", "len", "cap")

    def __init__(self, obj, path, off, len_, cap):
        self.obj, self.path, self.off, self.len, self.cap = obj, path, off, len_, cap

    def __eq__(self, o):
        return isinstance(o, Slice) and (self.obj, self.path, self.off, self.len, self.cap) == (o.obj, o.path, o.off, o.len, o.cap)

    def __hash__(self):
        return hash((self.obj, self.path, self.off, self.len, self.cap))

    def __repr__(self):
        return "slice(%s%s,%d,%d)" % (self.obj, list(self.path), self.off, self.len)


class Opaque:
    """An opaque value (string contents, errors, *big.Int numbers ...)"""
    __slots__ = ("kind", "data")

    def __init__(self, kind, data=None):
        self.kind, self.data = kind, data

    def __repr__(self):
        return "<%s %r>" % (self.kind, self.data)

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.kind == o.kind and self.data == o.data

    def __hash__(self):
        return hash((self.kind, self.data))


class Fn:
    __slots__ = ("name", "binds")

    def __init__(self, name, binds=()):
        self.name, self.binds = name, binds

    def __eq__(self, o):
        return isinstance(o, Fn) and self.name == o.name and self.binds == o.binds

    def __hash__(self):
        return hash((self.name, self.binds))


class Mux:
    """Value that could not be merged into a term: conditional alternatives."""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class State:
    """guard is a tuple of literals (conjunction)."""
    __slots__ = ("mem", "guard", "ghost")

    def __init__(self, mem, guard=(), ghost=None):
        self.mem, self.guard, self.ghost = mem, guard, ghost or {}

    def fork(self):
        return State(dict(self.mem), self.guard, dict(self.ghost))

    def g(self):
        return tm.band(*self.guard) if self.guard else TRUE


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types, self.globals, self.tags = d["types"], d["globals"], d["tags"]
        self.funcs = d["funcs"]
        self.pkgs = d["pkgs"]
        self.short = {}
        for n, f in self.funcs.items():
            f["name"] = n
            self._prep(f)
        self._zero = {}

    def under(self, t):
        d = self.types[t]
        while d["k"] == "named":
            t = d["u"]
            d = self.types[t]
        return d

    def elem(self, t):
        return self.under(t)["e"]

    def intty(self, t):
        d = self.under(t)
        if d["k"] == "basic":
            if d["n"] in ("bool", "untyped bool"):
                return BOOL
            return INT.get(d["n"])
        return None

    def zero(self, t):
        z = self._zero.get(t)
        if z is None:
            d = self.under(t)
            k = d["k"]
            if k == "basic":
                it = self.intty(t)
                if it is None:
                    z = ("str", b"") if d["n"] == "string" else None
                elif it == BOOL:
                    z = FALSE
                else:
                    z = tm.const(0, it)
            elif k == "array":
                z = (self.zero(d["e"]),) * d["len"]
            elif k == "struct":
                z = tuple(self.zero(f["t"]) for f in d["f"] or [])
            else:
                z = None
            self._zero[t] = z
        return z

    def _prep(self, f):
        if f.get("ext") or not f.get("blocks"):
            return
        bl = f["blocks"]
        n = len(bl)
        for b in bl:
            b["i"] = b["i"] or []
            b["s"] = b["s"] or []
            b["p"] = b["p"] or []
        # reverse postorder
        seen, post = set(), []

        def dfs(r):
            st = [(r, iter(bl[r]["s"]))]
            seen.add(r)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(bl[y]["s"])))
                        break
                else:
                    post.append(x)
                    st.pop()
        dfs(0)
        order = post[::-1]
        rpo = {b: i for i, b in enumerate(order)}
        # natural loops (reducible CFG): back edge u->h with rpo[h] <= rpo[u] and h dominates u
        dom = {b: None for b in order}
        dom[0] = {0}
        changed = True
        while changed:
            changed = False
            for b in order:
                if b == 0:
                    continue
                ps = [dom[p] for p in bl[b]["p"] if p in rpo and dom[p] is not None]
                if not ps:
                    continue
                d = set.intersection(*ps) | {b}
                if d != dom[b]:
                    dom[b] = d
                    changed = True
        loops = {}
        for u in order:
            for h in bl[u]["s"]:
                if h in dom[u]:
                    body = loops.setdefault(h, {h})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in bl[x]["p"] if p in rpo)
        # order in which loop bodies precede loop exits: recompute rpo by a topological order
        # in which, at a branch, blocks of the innermost loop come first.
        depth = {b: sum(1 for h in loops if b in loops[h]) for b in order}
        indeg = {b: 0 for b in order}
        fwd = {b: [] for b in order}
        for b in order:
            for s in bl[b]["s"]:
                if s in dom[b]:
                    continue
                fwd[b].append(s)
                indeg[s] += 1
        # loop exits must come after the whole loop body
        for h, body in loops.items():
            ex = {s for b in body for s in bl[b]["s"] if s not in body}
            for b in body:
                for e in ex:
                    if e not in fwd[b]:
                        fwd[b].append(e)
                        indeg[e] += 1
        heap = [(0, 0)]
        new, cnt = {}, 0
        heap = [(rpo[b], b) for b in order if indeg[b] == 0]
        heapq.heapify(heap)
        while heap:
            _, b = heapq.heappop(heap)
            new[b] = cnt
            cnt += 1
            for s in fwd[b]:
                indeg[s] -= 1
                if indeg[s] == 0:
                    heapq.heappush(heap, (rpo[s], s))
        if len(new) == len(order):
            rpo = new
        f["rpo"] = rpo
        f["inloop"] = {b: any(b in body for body in loops.values()) for b in range(n)}
        for b in range(n):
            bl[b]["_n"] = b
        f["loops"] = loops
        f["chain"] = {b: sorted((h for h in loops if b in loops[h]), key=lambda h: (len(loops[h]) * -1, rpo[h])) for b in order}
        # induction families
        defs = {}
        for bi in order:
            for ins in bl[bi]["i"]:
                if "r" in ins:
                    defs[ins["r"]] = (bi, ins)
        phis = {}
        for h in loops:
            for ins in bl[h]["i"]:
                if ins["op"] == "phi" and self.intty(ins["t"]) not in (None, BOOL):
                    phis[ins["r"]] = (h, ins)
        par = {}

        def find(x):
            par.setdefault(x, x)
            while par[x] != x:
                x = par[x]
            return x
        step = {}

        def base(v, off, depth_):
            """resolve v to set of (phi, offset) it is derived from by +const / nested phis"""
            if depth_ > 8 or v.get("k") != "reg":
                return set()
            r = v["n"]
            out = set()
            if r in phis:
                out.add((r, off))
                return out
            if r not in defs:
                return out
            ins = defs[r][1]
            if ins["op"] == "binop" and ins["o"] in "+-":
                if ins["y"]["k"] == "const" and isinstance(ins["y"].get("v"), str):
                    try:
                        c = int(ins["y"]["v"])
                    except ValueError:
                        return out
                    return base(ins["x"], off + (c if ins["o"] == "+" else -c), depth_ + 1)
            if ins["op"] == "phi":
                for e in ins["es"]:
                    out |= base(e, off, depth_ + 1)
            return out
        seqs = []
        for r, (h, ins) in phis.items():
            for k, e in enumerate(ins["es"]):
                pred = bl[h]["p"][k]
                for (q, off) in base(e, 0, 0):
                    if q == r and off == 0:
                        continue
                    if find(q) != find(r):
                        # copy between loops: same family if one loop is nested in the other
                        if h in loops[phis[q][0]] or phis[q][0] in loops[h]:
                            par[find(q)] = find(r)
                        else:
                            seqs.append((q, r))
                            continue
                    if off:
                        step.setdefault(r, set()).add(off > 0)
                        step.setdefault(q, set()).add(off > 0)
        def dirs_of(root):
            d = set()
            for m in phis:
                if find(m) == root:
                    d |= step.get(m, set())
            return d
        # a counter that goes on in a later loop: the two loops and what lies between them count as one
        merged = {}
        for q, r in seqs:
            a, b_ = find(q), find(r)
            if a == b_:
                continue
            da, db = dirs_of(a), dirs_of(b_)
            g, h = phis[q][0], phis[r][0]
            if len(da) != 1 or da != db or rpo[g] > rpo[h]:
                continue
            par[b_] = a
            fwdr, st = {g}, [g]
            while st:
                x = st.pop()
                for y in bl[x]["s"]:
                    if y not in fwdr:
                        fwdr.add(y)
                        st.append(y)
            bwd, st = {h}, [h]
            while st:
                x = st.pop()
                for y in bl[x]["p"]:
                    if y not in bwd and y in rpo:
                        bwd.add(y)
                        st.append(y)
            reg = {x for x in fwdr & bwd if g in dom[x]} | loops[h] | loops[g]
            merged.setdefault(g, set()).update(reg)
        fam = {}
        for r in phis:
            fam.setdefault(find(r), []).append(r)
        fams = {}
        for root, ms in fam.items():
            dirs = set()
            for m in ms:
                dirs |= step.get(m, set())
            if len(dirs) != 1:
                continue
            top = min((phis[m][0] for m in ms), key=lambda h: (rpo[h] if merged else 0, len(f["chain"][h]), rpo[h]))
            fams[root] = (top, 1 if True in dirs else -1, ms)
        if merged:
            big = {h: set(body) | merged.get(h, set()) for h, body in loops.items()}
            f["chain"] = {b: sorted((h for h in big if b in big[h]), key=lambda h: (len(big[h]) * -1, rpo[h])) for b in order}
        f["fams"] = fams
        f["phifam"] = {m: root for root, (_, _, ms) in fams.items() for m in ms}


def merge_val(c, a, b):
    if a is b:
        return a
    if isinstance(a, T) and isinstance(b, T):
        return tm.ite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a and a[0] == "str" or b and b[0] == "str":
            if a == b:
                return a
            return Mux(c, a, b)
        if len(a) == len(b):
            return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if type(a) is type(b) and a == b:
        return a
    return Mux(c, a, b)


class Executor:
    def __init__(self, prog, hooks=None, merge=True):
        self.p = prog
        self.hooks = hooks or {}      # name -> handler(ex, st, args, ins) -> value or NotImplemented
        self.merge = merge
        self.nobj = 0
        self.inv = 0
        self.steps = 0
        self.max_steps = 60_000_000
        self.called = {}
        self.panics = []              # (guard term, msg, pos)
        self.branches = []            # (cond, guard, fn) symbolic branch conditions
        self.indices = []             # (index term, guard, fn) symbolic indices
        self.decide = None            # optional: callable(guard, cond) -> True/False/None
        self.on_branch = None
        self.depth = 0
        self.obligations = []         # (guard, cond, what) must hold
        self.loop_limit = 100000
        self.writes = None            # optional set of (obj, path) for stores
        self.deadline = None
        self.predicate = False        # see pstore
        self.on_header = None         # optional: called before a loop header is executed
        self.frames = []

    # ---- memory -------------------------------------------------------------
    def new(self, st, val, name="o"):
        self.nobj += 1
        o = "%s#%d" % (name, self.nobj)
        st.mem[o] = val
        return o

    def load(self, st, p):
        if isinstance(p, Mux):
            return merge_val(p.c, self.load(st, p.a), self.load(st, p.b))
        if not isinstance(p, Ptr):
            raise PanicPath("nil pointer dereference")
        v = st.mem.get(p.obj, st)
        if v is st:
            v = self.extglobal(p.obj)
        return self._get(v, p.path)

    def extglobal(self, o):
        """a variable of a package outside the program"""
        if o.startswith("g:encoding/base64."):
            return ("enc", o.rsplit(".", 1)[1])
        if o.startswith("g:"):
            return Opaque("global", o[2:])
        raise KeyError(o)

    def _get(self, v, path):
        for k, i in enumerate(path):
            if isinstance(i, int):
                v = v[i]
            else:
                rest = path[k + 1:]
                alts = [self._get(x, rest) for x in v]
                r = alts[-1]
                for j in range(len(alts) - 2, -1, -1):
                    r = merge_val(tm.cmp("eq", i, tm.const(j, i.ty)), alts[j], r)
                return r
        return v

    def _set(self, v, path, new):
        if not path:
            return new
        i = path[0]
        if isinstance(i, int):
            return v[:i] + (self._set(v[i], path[1:], new),) + v[i + 1:]
        return tuple(merge_val(tm.cmp("eq", i, tm.const(j, i.ty)), self._set(x, path[1:], new), x) for j, x in enumerate(v))

    def store(self, st, p, val):
        if isinstance(p, Mux):
            va = self.load(st, p.a)
            vb = self.load(st, p.b)
            self.store(st, p.a, merge_val(p.c, val, va))
            self.store(st, p.b, merge_val(p.c, vb, val))
            return
        if not isinstance(p, Ptr):
            raise PanicPath("nil pointer dereference")
        if self.writes is not None:
            self.writes.add((p.obj, p.path))
        if self.predicate and st.guard and isinstance(val, T) and val.ty != BOOL and val.op != "fl" and self.frames:
            self.pstore(st, p, val)
            return
        st.mem[p.obj] = self._set(st.mem[p.obj], p.path, val)

    def pstore(self, st, p, val):
        """A store under the path condition g.  The states of the other pending paths are disjoint from g, so that
        "val if g, else the old value" is what each of them holds as well; it is written to all of them, which keeps
        the memories of the paths equal."""
        g = st.g()
        sib = [s for f in self.frames for s, _ in f.values() if s is not st and p.obj in s.mem]
        if not sib:
            st.mem[p.obj] = self._set(st.mem[p.obj], p.path, val)
            return
        for s in sib + [st]:
            s.mem[p.obj] = self._set(s.mem[p.obj], p.path, tm.ite(g, val, self._get(s.mem[p.obj], p.path)))

    def arr_of(self, st, sl):
        return self._get(st.mem[sl.obj], sl.path)

    def sl_get(self, st, sl, i):
        return self.arr_of(st, sl)[sl.off + i]

    def sl_list(self, st, sl):
        if sl is None:
            return []
        return list(self.arr_of(st, sl)[sl.off:sl.off + sl.len])

    def sl_write(self, st, sl, vals, at=0):
        a = self.arr_of(st, sl)
        o = sl.off + at
        if self.writes is not None:
            for k in range(len(vals)):
                self.writes.add((sl.obj, sl.path + (o + k,)))
        a = a[:o] + tuple(vals) + a[o + len(vals):]
        st.mem[sl.obj] = self._set(st.mem[sl.obj], sl.path, a)

    # ---- values -------------------------------------------------------------
    def val(self, env, v):
        k = v["k"]
        if k == "reg":
            return env[v["n"]]
        if k == "const":
            c = v.get("_c")
            if c is None:
                t = v["t"]
                it = self.p.intty(t)
                x = v["v"]
                if x is None:
                    c = self.p.zero(t)
                    return c
                if it == BOOL:
                    c = tm.boolc(x)
                elif it is not None:
                    c = tm.const(int(x), it)
                elif v.get("s"):
                    c = ("str", x.encode("utf8", "surrogateescape"))
                else:
                    c = Opaque("const", x)
                v["_c"] = c
            return c
        if k == "global":
            return Ptr("g:" + v["n"])
        if k == "func":
            return Fn(v["n"])
        if k == "builtin":
            return Fn("builtin:" + v["n"])
        if k == "nil":
            return None
        raise Unsupported(k)

    # ---- globals ------------------------------------------------------------
    def init_state(self):
        st = State({})
        for g, t in self.p.globals.items():
            st.mem["g:" + g] = self.p.zero(t)
        hooks, self.hooks = self.hooks, {}
        for pk in self.p.pkgs[::-1]:
            f = self.p.funcs.get(pk + ".init")
            if f:
                self._init_pkg = pk
                for g in list(self.p.globals):
                    if g.endswith("init$guard"):
                        st.mem["g:" + g] = FALSE
                outs = self.call(st, pk + ".init", [])
                st = outs[0][0]
        self.hooks = hooks
        self.called = {}
        self.branches, self.indices, self.panics = [], [], []
        return st

    # ---- calls --------------------------------------------------------------
    def call(self, st, name, args, ins=None):
        """returns list of (state, result)"""
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, st, args, ins)
            if r is not NotImplemented:
                return r if isinstance(r, list) else [(st, r)]
        f = self.p.funcs.get(name)
        if f is None or f.get("ext") or not f.get("blocks") or name in stdlib.MODELS:
            return stdlib.call(self, st, name, args, ins)
        self.called[name] = self.called.get(name, 0) + 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time limit of the symbolic execution")
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion depth")
        nf = len(self.frames)
        try:
            return self.run(st, f, args)
        finally:
            self.depth -= 1
            del self.frames[nf:]

    def call1(self, st, name, args):
        outs = self.call(st, name, args)
        if len(outs) != 1:
            outs = self.merge_outs(outs)
        if len(outs) != 1:
            raise Unsupported("several outcomes of " + name)
        return outs[0]

    def merge_outs(self, outs):
        if len(outs) <= 1:
            return outs
        st, r = outs[0]
        for s2, r2 in outs[1:]:
            c, g = self.merge_guard(st, s2)
            st = self.merge_state(c, g, st, s2)
            r = merge_val(c, r, r2)
        return [(st, r)]

    def merge_guard(self, a, b):
        ga, gb = a.guard, b.guard
        i = 0
        while i < len(ga) and i < len(gb) and ga[i] is gb[i]:
            i += 1
        ra, rb = ga[i:], gb[i:]
        ca = tm.band(*ra) if ra else TRUE
        cb = tm.band(*rb) if rb else TRUE
        d = tm.bor_s(ca, cb)
        g = ga[:i] + ((d,) if d is not TRUE else ())
        # choose the simpler selector
        if ra and rb and tm.bnot(rb[0]) is ra[0]:
            c = ra[0]
        elif len(ra) <= len(rb) or not rb:
            c = ca
        else:
            c = tm.bnot(cb)
        return c, g

    def merge_state(self, c, g, a, b):
        mem = {}
        for o, v in a.mem.items():
            if o in b.mem:
                w = b.mem[o]
                mem[o] = v if v is w else merge_val(c, v, w)
            else:
                mem[o] = v
        for o, v in b.mem.items():
            if o not in mem:
                mem[o] = v
        gh = {}
        for k, v in a.ghost.items():
            if k in b.ghost:
                gh[k] = merge_val(c, v, b.ghost[k])
        return State(mem, g, gh)

    def run(self, st, f, args):
        blocks, rpo, chain, fams, phifam = f["blocks"], f["rpo"], f["chain"], f["fams"], f["phifam"]
        self.inv += 1
        env = {"#inv": self.inv}
        fv = f.get("freevars") or []
        if fv:
            nb = len(fv)
            for p, a in zip(fv, args[-nb:]):
                env[p["n"]] = a
            args = args[:-nb]
        for p, a in zip(f["params"] or [], args):
            env[p["n"]] = a
        outs = []
        pending = {}   # key -> (state, env) entries merged; heap of keys
        heap = []
        seq = [0]
        self.frames.append(pending)

        def push(b, st, env, prev):
            # evaluate phis
            ins = blocks[b]["i"]
            ph = []
            for x in ins:
                if x["op"] != "phi":
                    break
                k = blocks[b]["p"].index(prev)
                ph.append((x["r"], self.val(env, x["es"][k])))
            if ph:
                env = dict(env)
                for r, v in ph:
                    env[r] = v
                    fm = phifam.get(r)
                    if fm is not None:
                        env["#" + fm] = v
            key = []
            ch = chain.get(b, [])
            for h in ch:
                key.append(rpo[h])
                for root, (top, dr, ms) in fams.items():
                    if top == h:
                        v = env.get("#" + root)
                        if isinstance(v, T) and v.op == "c":
                            key.append(dr * v.args[0])
                        else:
                            key.append(0)
            key.append(rpo[b])
            key = tuple(key)
            # leaving a loop: drop the family values
            k2 = (key, b)
            if self.merge and k2 in pending:
                s0, e0 = pending[k2]
                c, g = self.merge_guard(s0, st)
                s1 = self.merge_state(c, g, s0, st)
                e1 = {}
                for r, v in e0.items():
                    if r in env:
                        w = env[r]
                        e1[r] = v if v is w else merge_val(c, v, w)
                pending[k2] = (s1, e1)
                return
            if not self.merge:
                seq[0] += 1
                k2 = (key, b, seq[0])
                heapq.heappush(heap, (key, b, seq[0]))
            else:
                heapq.heappush(heap, (key, b, 0))
            pending[k2] = (st, env)

        cur = (0, st, env)
        while True:
            if cur is None:
                if not heap:
                    break
                k, b, q = heapq.heappop(heap)
                st, env = pending.pop((k, b, q) if not self.merge else (k, b))
            else:
                b, st, env = cur
                cur = None
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time limit of the symbolic execution")
            if self.on_header is not None and b in f["loops"]:
                self.on_header(self, f, b, st, env, pending)
            nxt = self.block(f, b, st, env, outs)
            if not nxt:
                continue
            if not heap and len(nxt) == 1:
                nb, nst, nenv = nxt[0]
                # fast path: nothing else pending
                ins0 = blocks[nb]["i"]
                ph = []
                for x in ins0:
                    if x["op"] != "phi":
                        break
                    kk = blocks[nb]["p"].index(b)
                    ph.append((x["r"], self.val(nenv, x["es"][kk])))
                for r, v in ph:
                    nenv[r] = v
                    fm = phifam.get(r)
                    if fm is not None:
                        nenv["#" + fm] = v
                cur = (nb, nst, nenv)
                continue
            for nb, nst, nenv in nxt:
                push(nb, nst, nenv, b)
        if not outs:
            raise PanicPath("no normal return from " + f["name"])
        if self.merge:
            outs = self.merge_outs(outs)
        return outs

    def oblige(self, st, cond, what, ins=None):
        if cond is TRUE:
            return
        if cond is FALSE and not st.guard:
            raise PanicPath(what)
        self.obligations.append((st.g(), cond, what + (" at " + ins["pos"] if ins and "pos" in ins else "")))

    def block(self, f, b, st, env, outs):
        """executes one block; returns list of (block, state, env)"""
        blk = f["blocks"][b]
        todo = [(st, env, 0)]
        res = []
        first = True
        while todo:
            st, env, i0 = todo.pop()
            try:
                r = self._block(f, blk, st, env, i0, todo, outs)
            except PanicPath as e:
                if not st.guard:
                    raise
                self.panics.append((st.g(), e.msg, f["name"]))
                continue
            res.extend(r)
        return res

    def _block(self, f, blk, st, env, i0, todo, outs):
        val = self.val
        p = self.p
        instrs = blk["i"]
        for idx in range(i0, len(instrs)):
            ins = instrs[idx]
            op = ins["op"]
            self.steps += 1
            if op == "phi":
                continue
            if op == "binop":
                env[ins["r"]] = r = self.binop(st, ins["o"], val(env, ins["x"]), val(env, ins["y"]), ins)
                if ins["o"] in ("==", "!=") and isinstance(r, T) and not tm.isc(r):
                    x = val(env, ins["x"])
                    if isinstance(x, tuple) and not (x and x[0] == "iface"):
                        self.branches.append((r, st.guard, f["name"]))      # the comparison stops at the first difference
            elif op == "unop":
                o = ins["o"]
                x = val(env, ins["x"])
                if o == "*":
                    env[ins["r"]] = self.load(st, x)
                elif o == "-":
                    env[ins["r"]] = tm.neg(x)
                elif o == "^":
                    env[ins["r"]] = tm.inv(x)
                elif o == "!":
                    env[ins["r"]] = tm.bnot(x)
                else:
                    raise Unsupported("unop " + o)
            elif op == "indexaddr":
                env[ins["r"]] = self.indexaddr(st, val(env, ins["x"]), val(env, ins["y"]), ins, f)
            elif op == "store":
                self.store(st, val(env, ins["a"]), val(env, ins["x"]))
            elif op == "fieldaddr":
                x = val(env, ins["x"])
                if isinstance(x, Mux):
                    env[ins["r"]] = self.mapmux(x, lambda q: Ptr(q.obj, q.path + (ins["i"],)))
                else:
                    if not isinstance(x, Ptr):
                        raise PanicPath("nil pointer dereference")
                    env[ins["r"]] = Ptr(x.obj, x.path + (ins["i"],))
            elif op == "convert":
                env[ins["r"]] = self.convert(st, val(env, ins["x"]), ins)
            elif op == "changetype":
                env[ins["r"]] = val(env, ins["x"])
            elif op == "call":
                if "invoke" in ins:
                    r = self.invoke(st, val(env, ins["f"]), ins["invoke"], [val(env, a) for a in ins["args"] or []], ins)
                else:
                    fn = val(env, ins["f"])
                    args = [val(env, a) for a in ins["args"] or []]
                    if not isinstance(fn, Fn):
                        raise Unsupported("call of " + repr(fn))
                    if fn.name.startswith("builtin:"):
                        r = [(st, self.builtin(st, fn.name[8:], args, ins))]
                    else:
                        r = self.call(st, fn.name, args + list(fn.binds), ins)
                if len(r) == 1:
                    st, v = r[0]
                    env[ins["r"]] = v
                else:
                    for s2, v in r[1:]:
                        e2 = dict(env)
                        e2[ins["r"]] = v
                        todo.append((s2, e2, idx + 1))
                    st, v = r[0]
                    env = dict(env)
                    env[ins["r"]] = v
            elif op == "alloc":
                et = p.elem(ins["t"])
                if f["inloop"][blk["_n"]]:
                    env[ins["r"]] = Ptr(self.new(st, p.zero(et), ins["r"]))
                else:
                    # executed once per invocation: the same object on every path
                    o = "%s@%d" % (ins["r"], env["#inv"])
                    st.mem[o] = p.zero(et)
                    env[ins["r"]] = Ptr(o)
            elif op == "slice":
                env[ins["r"]] = self.slice(st, val(env, ins["x"]), val(env, ins["lo"]), val(env, ins["hi"]), val(env, ins["max"]), ins)
            elif op == "extract":
                env[ins["r"]] = val(env, ins["x"])[ins["i"]]
            elif op == "field":
                env[ins["r"]] = val(env, ins["x"])[ins["i"]]
            elif op == "index":
                x, y = val(env, ins["x"]), val(env, ins["y"])
                if isinstance(x, tuple) and x and x[0] == "str":
                    if not tm.isc(y):
                        raise Unsupported("symbolic string index")
                    env[ins["r"]] = tm.const(x[1][tm.cv(y)], (8, False))
                elif tm.isc(y):
                    if not 0 <= tm.cv(y) < len(x):
                        raise PanicPath("index out of range")
                    env[ins["r"]] = x[tm.cv(y)]
                else:
                    self.indices.append((y, st.guard, f["name"]))
                    env[ins["r"]] = self._get(x, (y,))
            elif op == "if":
                c = val(env, ins["x"])
                s = blk["s"]
                if tm.isc(c):
                    return [(s[0] if tm.cv(c) else s[1], st, env)]
                c2 = self.assume(st, c)
                if c2 is not None:
                    return [(s[0] if c2 else s[1], st, env)]
                self.branches.append((c, st.guard, f["name"], id(blk)))
                st2 = st.fork()
                st.guard = st.guard + (c,)
                st2.guard = st2.guard + (tm.bnot(c),)
                return [(s[0], st, env), (s[1], st2, dict(env))]
            elif op == "jump":
                return [(blk["s"][0], st, env)]
            elif op == "return":
                rs = [val(env, r) for r in ins["rs"] or []]
                outs.append((st, rs[0] if len(rs) == 1 else tuple(rs) if rs else None))
                return []
            elif op == "panic":
                raise PanicPath("explicit panic")
            elif op == "makeslice":
                n, c = val(env, ins["len"]), val(env, ins["cap"])
                if not (tm.isc(n) and tm.isc(c)):
                    raise Unsupported("symbolic make")
                z = p.zero(p.elem(ins["t"]))
                if tm.cv(n) < 0:
                    raise PanicPath("makeslice: len out of range")
                o = self.new(st, (z,) * tm.cv(c), "mk")
                env[ins["r"]] = Slice(o, (), 0, tm.cv(n), tm.cv(c))
            elif op == "makeiface":
                env[ins["r"]] = ("iface", ins["x"].get("t"), val(env, ins["x"]))
            elif op == "makeclosure":
                env[ins["r"]] = Fn(ins["f"]["n"], tuple(val(env, x) for x in ins["bs"] or []))
            elif op == "slice2arr":
                x = val(env, ins["x"])
                n = p.under(p.elem(ins["t"]))["len"]
                if x is None or x.len < n:
                    raise PanicPath("slice to array pointer")
                env[ins["r"]] = self.subarr(st, x, n)
            elif op == "rundefers":
                pass
            else:
                raise Unsupported("instruction %s %s in %s" % (op, ins.get("what", ""), f["name"]))
        raise Unsupported("fell off block")

    def subarr(self, st, x, n):
        a = self.arr_of(st, x)
        if x.off == 0 and len(a) == n:
            return Ptr(x.obj, x.path)
        raise Unsupported("sub-array pointer")

    def mapmux(self, x, fn):
        if isinstance(x, Mux):
            return Mux(x.c, self.mapmux(x.a, fn), self.mapmux(x.b, fn))
        return fn(x)

    def assume(self, st, c):
        """Decides c from the guard where that is syntactically possible."""
        nc = tm.bnot(c)
        for l in st.guard:
            if l is c:
                return True
            if l is nc:
                return False
            if l.op == "band":
                if c in l.args:
                    return True
                if nc in l.args:
                    return False
        if self.decide is not None:
            return self.decide(st, c)
        return None

    def binop(self, st, o, x, y, ins):
        if isinstance(x, T) and isinstance(y, T):
            if o in ("<<", ">>"):
                if y.ty[1] and not tm.isc(y):
                    self.oblige(st, tm.cmp("le", tm.const(0, y.ty), y), "negative shift", ins)
                elif tm.isc(y) and tm.cv(y) < 0:
                    raise PanicPath("negative shift")
                return tm.shift("shl" if o == "<<" else "shr", x, y)
            m = {"+": "add", "-": "sub", "*": "mul", "&": "and", "|": "or", "^": "xor", "&^": "andnot", "/": "quo", "%": "rem"}.get(o)
            if m:
                if m in ("quo", "rem"):
                    if tm.isc(y):
                        if tm.cv(y) == 0:
                            raise PanicPath("division by zero")
                    else:
                        self.oblige(st, tm.cmp("ne", y, tm.const(0, y.ty)), "division by zero", ins)
                return tm.binop(m, x, y)
            if o == "==":
                return tm.cmp("eq", x, y)
            if o == "!=":
                return tm.cmp("ne", x, y)
            if o == "<":
                return tm.cmp("lt", x, y)
            if o == "<=":
                return tm.cmp("le", x, y)
            if o == ">":
                return tm.cmp("lt", y, x)
            if o == ">=":
                return tm.cmp("le", y, x)
            raise Unsupported("binop " + o)
        if o in ("==", "!="):
            r = self.eq(x, y)
            return r if o == "==" else tm.bnot(r)
        raise Unsupported("binop %s on %r %r" % (o, x, y))

    def eq(self, x, y):
        if isinstance(x, Mux):
            return tm.bite(x.c, self.eq(x.a, y), self.eq(x.b, y))
        if isinstance(y, Mux):
            return tm.bite(y.c, self.eq(x, y.a), self.eq(x, y.b))
        if isinstance(x, T) and isinstance(y, T):
            return tm.cmp("eq", x, y)
        if x is None or y is None:
            return tm.boolc(x is None and y is None)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if (x and x[0] in ("str", "iface")) or (y and y[0] in ("str", "iface")):
                if x == y:
                    return TRUE
                if x[0] == "str" and y[0] == "str":
                    return tm.boolc(x[1] == y[1])
                raise Unsupported("interface comparison")
            return tm.band(*[self.eq(a, b) for a, b in zip(x, y)])
        if type(x) is type(y):
            return tm.boolc(x == y)
        raise Unsupported("comparison")

    def convert(self, st, x, ins):
        ty = self.p.intty(ins["t"])
        if isinstance(x, T) and ty is not None:
            return tm.conv(x, ty)
        d = self.p.under(ins["t"])
        if d["k"] == "basic" and d.get("n") == "string" and (isinstance(x, Slice) or x is None):
            return ("strof", tuple(self.sl_list(st, x)))
        if d["k"] == "slice" and isinstance(x, tuple) and x[0] in ("str", "strof"):
            vals = tuple(tm.const(c, (8, False)) for c in x[1]) if x[0] == "str" else x[1]
            o = self.new(st, vals, "sb")
            return Slice(o, (), 0, len(vals), len(vals))
        raise Unsupported("convert to " + ins["t"])

    def indexaddr(self, st, x, y, ins, f):
        if isinstance(x, Mux):
            return Mux(x.c, self.indexaddr(st, x.a, y, ins, f), self.indexaddr(st, x.b, y, ins, f))
        if isinstance(x, Slice):
            n, off, path, obj = x.len, x.off, x.path, x.obj
        elif isinstance(x, Ptr):
            t = self.p.under(self.p.elem(ins["x"]["t"]))
            n, off, path, obj = t["len"], 0, x.path, x.obj
        elif x is None:
            raise PanicPath("index of nil")
        else:
            raise Unsupported("indexaddr")
        if tm.isc(y):
            i = tm.cv(y)
            if not 0 <= i < n:
                raise PanicPath("index out of range [%d] with length %d" % (i, n))
            return Ptr(obj, path + (off + i,))
        self.indices.append((y, st.guard, f["name"]))
        self.oblige(st, tm.band(tm.cmp("le", tm.const(0, y.ty), y), tm.cmp("lt", y, tm.const(n, y.ty))), "index out of range", ins)
        y = tm.conv(y, (64, True))
        if off:
            y = tm.binop("add", y, tm.const(off, y.ty))
        return Ptr(obj, path + (y,))

    def slice(self, st, x, lo, hi, mx, ins):
        def ci(v, d):
            if v is None:
                return d
            if not tm.isc(v):
                raise Unsupported("symbolic slice bounds")
            return tm.cv(v)
        if isinstance(x, tuple) and x and x[0] in ("str", "strof"):
            l, h = ci(lo, 0), ci(hi, len(x[1]))
            if not 0 <= l <= h <= len(x[1]):
                raise PanicPath("slice bounds out of range")
            return (x[0], x[1][l:h])
        if isinstance(x, Ptr):
            a = self.load(st, x)
            n = len(a)
            base = Slice(x.obj, x.path, 0, n, n)
        elif isinstance(x, Slice):
            base = x
        elif x is None:
            if ci(lo, 0) == 0 and ci(hi, 0) == 0:
                return None
            raise PanicPath("slice of nil")
        else:
            raise Unsupported("slice")
        l, h = ci(lo, 0), ci(hi, base.len)
        m = ci(mx, base.cap)
        if not 0 <= l <= h <= m <= base.cap:
            raise PanicPath("slice bounds out of range")
        return Slice(base.obj, base.path, base.off + l, h - l, m - l)

    def builtin(self, st, name, args, ins):
        if name == "len" or name == "cap":
            x = args[0]
            if x is None:
                return tm.const(0, (64, True))
            if isinstance(x, Slice):
                return tm.const(x.len if name == "len" else x.cap, (64, True))
            if isinstance(x, tuple) and x and x[0] in ("str", "strof"):
                return tm.const(len(x[1]), (64, True))
            if isinstance(x, Ptr):
                return tm.const(len(self.load(st, x)), (64, True))
            if isinstance(x, tuple):
                return tm.const(len(x), (64, True))
        if name == "copy":
            d, s = args
            if isinstance(s, tuple) and s and s[0] in ("str", "strof"):
                vals = [tm.const(c, (8, False)) if isinstance(c, int) else c for c in s[1]]
            else:
                vals = self.sl_list(st, s)
            n = min(d.len if d is not None else 0, len(vals))
            if n:
                self.sl_write(st, d, vals[:n])
            return tm.const(n, (64, True))
        if name == "append":
            d, s = args
            if isinstance(s, tuple) and s and s[0] in ("str", "strof"):
                vals = [tm.const(c, (8, False)) if isinstance(c, int) else c for c in s[1]]
            else:
                vals = self.sl_list(st, s)
            if not vals:
                return d
            if d is not None and d.len + len(vals) <= d.cap:
                self.sl_write(st, Slice(d.obj, d.path, d.off, d.cap, d.cap), vals, d.len)
                return Slice(d.obj, d.path, d.off, d.len + len(vals), d.cap)
            old = self.sl_list(st, d)
            o = self.new(st, tuple(old + vals), "ap")
            return Slice(o, (), 0, len(old) + len(vals), len(old) + len(vals))
        if name in ("min", "max"):
            r = args[0]
            for a in args[1:]:
                r = tm.ite(tm.cmp("lt", r, a), r, a) if name == "min" else tm.ite(tm.cmp("lt", r, a), a, r)
            return r
        if name in ("print", "println"):
            return None
        if name == "ssa:wrapnilchk":
            return args[0]
        if name == "clear":
            x = args[0]
            if isinstance(x, Slice):
                z = self.p.zero(self.p.elem(ins["args"][0]["t"]))
                self.sl_write(st, x, [z] * x.len)
                return None
        raise Unsupported("builtin " + name)

    def invoke(self, st, recv, meth, args, ins):
        if isinstance(recv, tuple) and recv and recv[0] == "iface":
            t = recv[1]
            for cand in ("(%s).%s" % (t, meth),):
                if cand in self.p.funcs:
                    return self.call(st, cand, [recv[2]] + args, ins)
        return stdlib.invoke(self, st, recv, meth, args, ins)
