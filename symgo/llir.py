"""Symbolic execution of LLVM IR (clang -O0) over the terms of terms.py.

Memory is a set of objects with cells at byte offsets; pointers are concrete.
Branches on symbolic conditions are explored path by path (run)."""
import os
import re
import subprocess
import time
from . import terms as tm
from .terms import T, BOOL, TRUE, FALSE
from .exec import Unsupported


class P:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return isinstance(o, P) and (self.obj, self.off) == (o.obj, o.off)

    def __hash__(self):
        return hash((self.obj, self.off))


def emit(src, out, flags=()):
    r = subprocess.run(["clang", "-S", "-emit-llvm", "-O0", "-fno-discard-value-names", "-Xclang", "-disable-O0-optnone", "-w", *flags, src, "-o", out],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    if r.returncode:
        raise Unsupported("clang: " + r.stdout[-400:])
    return out


TOK = re.compile(r'c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[@%][\w.$-]+|[@%]"[^"]*"|-?\d+|[\w.]+|<\{|\}>|[\[\]{}(),=*<>]|\.\.\.')
ATTR = {"noundef", "signext", "zeroext", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "inbounds", "nsw", "nuw", "exact", "returned", "immarg",
        "tail", "notail", "musttail", "dso_local", "internal", "constant", "global", "private", "unnamed_addr", "local_unnamed_addr", "disjoint", "nneg", "volatile", "fastcc", "common"}


class Module:
    def __init__(self, path):
        self.types, self.globals, self.funcs = {}, {}, {}
        cur = None
        for line in open(path):
            line = line.rstrip()
            if cur is not None:
                if line == "}":
                    cur = None
                    continue
                s = line.split(";")[0].strip()
                if not s:
                    continue
                m = re.match(r'^([\w.$-]+):$', s)
                if m:
                    lab = m.group(1)
                    cur["blocks"][lab] = []
                    continue
                s = re.sub(r",? *!\w+(\.\w+)* *!\d+|, !.*$", "", s)
                cur["blocks"][lab].append(TOK.findall(s))
                continue
            if line.startswith("%") and " = type " in line:
                n, t = line.split(" = type ")
                self.types[n] = t
            elif line.startswith("@"):
                m = re.match(r'^(@[\w.$-]+) = (.*)$', line)
                toks = [x for x in TOK.findall(m.group(2).split(", align")[0])]
                while toks and toks[0] in ATTR:
                    toks.pop(0)
                self.globals[m.group(1)] = toks
            elif line.startswith("define"):
                m = re.match(r'^define .*?(@[\w.$-]+)\((.*)\)[^()]*\{$', line)
                ps = []
                if m.group(2).strip():
                    for a in re.split(r",(?![^(\[{<]*[)\]}>])", m.group(2)):
                        ps.append([x for x in TOK.findall(a) if x.startswith("%")][-1])
                cur = {"name": m.group(1)[1:], "params": ps, "blocks": {}}
                lab = "entry"
                cur["blocks"][lab] = []
                self.funcs[cur["name"]] = cur

    # ---- types ------------------------------------------------------------
    def ptype(self, toks, i):
        """(type, next)"""
        t = toks[i]
        if t == "[":
            n = int(toks[i + 1])
            e, j = self.ptype(toks, i + 3)
            return ("a", n, e), j + 1
        if t in ("{", "<{"):
            es = []
            j = i + 1
            while toks[j] not in ("}", "}>"):
                if toks[j] == ",":
                    j += 1
                    continue
                e, j = self.ptype(toks, j)
                es.append(e)
            return ("s", t == "<{", tuple(es)), j + 1
        if t.startswith("%"):
            d = self.types.get(t)
            if isinstance(d, str):
                self.types[t] = d = self.ptype(TOK.findall(d), 0)[0]
            if d is None:
                raise Unsupported("type " + t)
            return d, i + 1
        if t == "ptr":
            return ("p",), i + 1
        if t == "void":
            return ("v",), i + 1
        m = re.match(r"^i(\d+)$", t)
        if m:
            return ("i", int(m.group(1))), i + 1
        raise Unsupported("type " + t)

    def size(self, t):
        if t[0] == "i":
            return max(1, t[1] // 8)
        if t[0] == "p":
            return 8
        if t[0] == "a":
            return t[1] * self.size(t[2])
        if t[0] == "s":
            o = 0
            for e in t[2]:
                if not t[1]:
                    a = self.align(e)
                    o = -(-o // a) * a
                o += self.size(e)
            if not t[1]:
                a = self.align(t)
                o = -(-o // a) * a
            return o
        raise Unsupported("size")

    def align(self, t):
        if t[0] in "ip":
            return self.size(t)
        if t[0] == "a":
            return self.align(t[2])
        return 1 if t[1] else max([self.align(e) for e in t[2]] + [1])

    def field(self, t, k):
        """offset and type of component k"""
        if t[0] == "a":
            return k * self.size(t[2]), t[2]
        o = 0
        for i, e in enumerate(t[2]):
            if not t[1]:
                a = self.align(e)
                o = -(-o // a) * a
            if i == k:
                return o, e
            o += self.size(e)
        raise Unsupported("field")

    def init(self, t, toks, i, off, cells):
        """initialiser of type t at toks[i:]"""
        x = toks[i]
        if x in ("zeroinitializer", "undef", "poison"):
            self.zero(t, off, cells)
            return i + 1
        if t[0] == "i":
            v = {"true": 1, "false": 0}.get(x)
            cells[off] = (self.size(t), tm.const(int(x) if v is None else v, (max(8, t[1]), True)))
            return i + 1
        if x.startswith('c"'):
            bs = []
            s = x[2:-1]
            j = 0
            while j < len(s):
                if s[j] == "\\":
                    bs.append(int(s[j + 1:j + 3], 16))
                    j += 3
                else:
                    bs.append(ord(s[j]))
                    j += 1
            for k, b in enumerate(bs):
                cells[off + k] = (1, tm.const(b, (8, False)))
            return i + 1
        if t[0] in "as":
            j, k = i + 1, 0
            while toks[j] not in ("]", "}", "}>"):
                if toks[j] == ",":
                    j += 1
                    continue
                e, j = self.ptype(toks, j)
                o = self.field(t, k)[0]
                j = self.init(e, toks, j, off + o, cells)
                k += 1
            return j + 1
        raise Unsupported("initialiser " + x)

    def zero(self, t, off, cells):
        if t[0] == "i":
            cells[off] = (self.size(t), tm.const(0, (max(8, t[1]), True)))
        elif t[0] == "p":
            cells[off] = (8, None)
        else:
            n = t[1] if t[0] == "a" else len(t[2])
            for k in range(n):
                o, e = self.field(t, k)
                self.zero(e, off + o, cells)


class Exec:
    """one path; decisions are taken from self.path, further ones are appended"""

    def __init__(self, mod, hooks=None, limit=3000000, deadline=None):
        self.m = mod
        self.hooks = hooks or {}
        self.mem = {}
        self.n = 0
        self.path = []           # [cond, value]
        self.pos = 0
        self.funcs = set()
        self.steps, self.limit = 0, limit
        self.deadline = deadline or time.time() + 200
        self.glob = {}

    # ---- memory --------------------------------------------------------------
    def new(self, cells=None):
        self.n += 1
        self.mem[self.n] = dict(cells or {})
        return P(self.n)

    def alloc(self, vals, size):
        """an object of consecutive cells"""
        return self.new({i * size: (size, v) for i, v in enumerate(vals)})

    def cells(self, p, n, size):
        out = []
        for i in range(n):
            c = self.mem[p.obj].get(p.off + i * size)
            if c is None or c[0] != size:
                raise Unsupported("uninitialised or differently typed memory")
            out.append(c[1])
        return tuple(out)

    def put(self, p, vals, size):
        for i, v in enumerate(vals):
            self.store(P(p.obj, p.off + i * size), v, size)

    def store(self, p, v, size):
        if not isinstance(p, P):
            raise Unsupported("store to null or an unknown address")
        o = self.mem[p.obj]
        if p.off not in o or o[p.off][0] != size:
            for k in [k for k, (s, _) in o.items() if k < p.off + size and p.off < k + s]:
                del o[k]
        o[p.off] = (size, v)

    def load(self, p, size):
        if not isinstance(p, P):
            raise Unsupported("load from null or an unknown address")
        c = self.mem[p.obj].get(p.off)
        if c is None or c[0] != size:
            raise Unsupported("load of uninitialised or differently typed memory")
        return c[1]

    def memcpy(self, d, s, n):
        src = {k - s.off: c for k, c in self.mem[s.obj].items() if s.off <= k < s.off + n}
        for k, (sz, v) in src.items():
            if k + sz > n:
                raise Unsupported("memcpy splits a cell")
        o = self.mem[d.obj]
        for k in [k for k, (sz, _) in o.items() if k < d.off + n and d.off < k + sz]:
            del o[k]
        for k, c in src.items():
            o[d.off + k] = c

    def memset(self, d, v, n):
        if v.op != "c" or v.args[0]:
            raise Unsupported("memset of a non-zero value")
        o = self.mem[d.obj]
        ks = [(k, sz) for k, (sz, _) in o.items() if k < d.off + n and d.off < k + sz]
        done = 0
        for k, sz in ks:
            if k < d.off or k + sz > d.off + n:
                raise Unsupported("memset splits a cell")
            o[k] = (sz, tm.const(0, (8 * sz, True)))
            done += sz
        if done != n:
            self.zeroed(d, n, o)

    def zeroed(self, d, n, o):
        t = self.atype.get(d.obj)
        if t is None or d.off or self.m.size(t) != n:
            raise Unsupported("memset of uninitialised memory")
        self.m.zero(t, 0, o)

    atype = None

    # ---- values ----------------------------------------------------------------
    def val(self, env, toks, i, t):
        """(value, next)"""
        while toks[i] in ATTR or toks[i] == "align":
            i += 2 if toks[i] == "align" else 1
        x = toks[i]
        if x.startswith("%"):
            return env[x], i + 1
        if x.startswith("@"):
            return self.gptr(x), i + 1
        if x == "null":
            return None, i + 1
        if x == "getelementptr":
            i += 1
            while toks[i] in ATTR:
                i += 1
            p, i = self.gep(env, toks, i + 1)
            return p, i + 1
        if t[0] != "i":
            raise Unsupported("operand " + x)
        if t[1] == 1:
            return tm.boolc(x in ("true", "1", "-1")), i + 1
        if x in ("undef", "poison"):
            raise Unsupported("undef")
        return tm.const(int(x), (t[1], True)), i + 1

    def gptr(self, x):
        if x not in self.glob:
            if x not in self.m.globals:
                raise Unsupported("global " + x)
            toks = self.m.globals[x]
            t, i = self.m.ptype(toks, 0)
            cells = {}
            self.m.init(t, toks, i, 0, cells)
            self.glob[x] = self.new(cells)
        return self.glob[x]

    def gep(self, env, toks, i):
        t, i = self.m.ptype(toks, i)
        pt, i = self.m.ptype(toks, i + 1)
        p, i = self.val(env, toks, i, pt)
        first = True
        off = p.off if isinstance(p, P) else 0
        if not isinstance(p, P):
            raise Unsupported("address arithmetic on null")
        while i < len(toks) and toks[i] == ",":
            it, i = self.m.ptype(toks, i + 1)
            v, i = self.val(env, toks, i, it)
            if v.op != "c":
                raise Unsupported("symbolic address")
            k = tm.norm(v.args[0], (v.ty[0], True))
            if first:
                off += k * self.m.size(t)
                first = False
            else:
                o, t = self.m.field(t, k)
                off += o
        return P(p.obj, off), i

    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if self.pos < len(self.path):
            k, v = self.path[self.pos]
            if k is not c:
                raise Unsupported("unstable path")
        else:
            v = True
            self.path.append([c, v])
            if len(self.path) > 12:
                raise Unsupported("too many symbolic branches")
        self.pos += 1
        return v

    # ---- execution ---------------------------------------------------------------
    def call(self, name, args):
        if name in self.hooks:
            return self.hooks[name](self, args)
        if name.startswith("llvm.memcpy") or name in ("memcpy", "memmove") or name.startswith("llvm.memmove"):
            if args[2].op != "c":
                raise Unsupported("memcpy of symbolic length")
            self.memcpy(args[0], args[1], args[2].args[0])
            return args[0]
        if name.startswith("llvm.memset") or name == "memset":
            self.memset(args[0], args[1], args[2].args[0])
            return args[0]
        if name.startswith("llvm.lifetime") or name.startswith("llvm.dbg"):
            return None
        f = self.m.funcs.get(name)
        if f is None:
            raise Unsupported("external function " + name)
        self.funcs.add(name)
        env = dict(zip(f["params"], args))
        if self.atype is None:
            self.atype = {}
        lab, prev = "entry" if "entry" in f["blocks"] else next(iter(f["blocks"])), None
        while True:
            nxt = None
            for toks in f["blocks"][lab]:
                self.steps += 1
                if self.steps > self.limit or (self.steps & 4095 == 0 and time.time() > self.deadline):
                    raise Unsupported("step or time limit")
                dst = None
                if toks[0].startswith("%"):
                    dst, toks = toks[0], toks[2:]
                op = toks[0]
                if op == "ret":
                    t, i = self.m.ptype(toks, 1)
                    return None if t[0] == "v" else self.val(env, toks, i, t)[0]
                if op == "br":
                    if toks[1] == "label":
                        nxt = toks[2][1:]
                    else:
                        c, i = self.val(env, toks, 2, ("i", 1))
                        nxt = toks[i + 2][1:] if self.decide(c) else toks[i + 5][1:]
                    break
                if op == "switch":
                    t, i = self.m.ptype(toks, 1)
                    v, i = self.val(env, toks, i, t)
                    nxt = toks[i + 2][1:]
                    i += 4
                    while toks[i] != "]":
                        _, i = self.m.ptype(toks, i)
                        k = int(toks[i])
                        if self.decide(tm.cmp("eq", v, tm.const(k, v.ty))):
                            nxt = toks[i + 3][1:]
                            break
                        i += 4
                    break
                r = self.ins(env, op, toks, prev)
                if dst is not None:
                    env[dst] = r
            if nxt is None:
                raise Unsupported("block without terminator in " + name)
            prev, lab = lab, nxt

    def ins(self, env, op, toks, prev):
        m = self.m
        if op == "alloca":
            t, i = m.ptype(toks, 1)
            p = self.new()
            self.atype[p.obj] = t
            return p
        if op == "load":
            t, i = m.ptype(toks, 1)
            while toks[i] != "ptr":
                i += 1
            p, i = self.val(env, toks, i + 1, ("p",))
            return self.load(p, m.size(t))
        if op == "store":
            t, i = m.ptype(toks, 1)
            v, i = self.val(env, toks, i, t)
            p, i = self.val(env, toks, i + 2, ("p",))
            self.store(p, v, m.size(t))
            return None
        if op == "getelementptr":
            i = 1
            while toks[i] in ATTR:
                i += 1
            return self.gep(env, toks, i)[0]
        if op in ("call", "tail"):
            k = next(i for i, x in enumerate(toks) if x.startswith("@"))
            args = []
            i = k + 2
            while toks[i] != ")":
                if toks[i] == ",":
                    i += 1
                    continue
                t, i = m.ptype(toks, i)
                while toks[i] in ATTR or toks[i] in ("align", "dereferenceable"):
                    i += {"align": 2, "dereferenceable": 4}.get(toks[i], 1)
                v, i = self.val(env, toks, i, t)
                args.append(v)
            return self.call(toks[k][1:], args)
        if op == "phi":
            t, i = m.ptype(toks, 1)
            while True:
                v, j = None, i + 1
                # the value is only evaluated for the edge taken
                e = j
                while toks[e] != ",":
                    e += 1
                if toks[e + 1][1:] == prev:
                    return self.val(env, toks, j, t)[0]
                i = e + 4
        flags = set()
        i = 1
        while toks[i] in ATTR:
            flags.add(toks[i])
            i += 1
        if op == "icmp":
            pred = toks[i]
            t, i = m.ptype(toks, i + 1)
            a, i = self.val(env, toks, i, t)
            b, i = self.val(env, toks, i + 1, t)
            if t[0] == "p":
                r = tm.boolc(a == b)
                return r if pred == "eq" else tm.bnot(r)
            if t[1] == 1:
                e = tm.bor(tm.band(a, b), tm.band(tm.bnot(a), tm.bnot(b)))
                return e if pred == "eq" else tm.bnot(e)
            if pred in ("eq", "ne"):
                a, b = self.same(a, b)
                r = tm.cmp("eq", a, b)
                return r if pred == "eq" else tm.bnot(r)
            ty = (t[1], pred[0] == "s")
            a, b = tm.conv(a, ty), tm.conv(b, ty)
            if pred[1:] == "lt":
                return tm.cmp("lt", a, b)
            if pred[1:] == "le":
                return tm.cmp("le", a, b)
            if pred[1:] == "gt":
                return tm.cmp("lt", b, a)
            return tm.cmp("le", b, a)
        if op in ("zext", "sext", "trunc"):
            t, i = m.ptype(toks, i)
            v, i = self.val(env, toks, i, t)
            d, i = m.ptype(toks, i + 1)
            if t[1] == 1:
                r = tm.b2i(v, (d[1], True))
                return r if op == "zext" else tm.neg(r)
            if op == "trunc":
                if d[1] == 1:
                    return tm.cmp("eq", tm.binop("and", v, tm.const(1, v.ty)), tm.const(1, v.ty))
                return tm.conv(v, (d[1], v.ty[1]))
            s = op == "sext"
            return tm.conv(tm.conv(v, (t[1], s)), (d[1], s))
        if op == "select":
            c, i = self.val(env, toks, i + 1, ("i", 1))
            t, i = m.ptype(toks, i + 1)
            a, i = self.val(env, toks, i, t)
            t, i = m.ptype(toks, i + 1)
            b, i = self.val(env, toks, i, t)
            if t[0] == "p":
                return a if self.decide(c) else b
            if t[1] == 1:
                return tm.bite(c, a, b)
            a, b = self.same(a, b)
            return tm.ite(c, a, b)
        if op == "freeze":
            t, i = m.ptype(toks, i)
            return self.val(env, toks, i, t)[0]
        OPS = {"add": "add", "sub": "sub", "mul": "mul", "and": "and", "or": "or", "xor": "xor", "sdiv": "quo", "udiv": "quo", "srem": "rem", "urem": "rem"}
        t, i = m.ptype(toks, i)
        a, i = self.val(env, toks, i, t)
        b, i = self.val(env, toks, i + 1, t)
        if t[0] == "i" and t[1] == 1:
            if op == "xor":
                return tm.bor(tm.band(a, tm.bnot(b)), tm.band(tm.bnot(a), b))
            return {"and": tm.band, "or": tm.bor}[op](a, b)
        if op in ("shl", "lshr", "ashr"):
            if b.op != "c" or not 0 <= b.args[0] < t[1]:
                raise Unsupported("shift by a symbolic or excessive amount")
            n = tm.const(b.args[0], (64, False))
            if op == "shl":
                return tm.shift("shl", a, n)
            return tm.shift("shr", tm.conv(a, (t[1], op == "ashr")), n)
        if op not in OPS:
            raise Unsupported("instruction " + op)
        if "nsw" in flags or op in ("sdiv", "srem"):
            ty = (t[1], True)
            a, b = tm.conv(a, ty), tm.conv(b, ty)
        elif op in ("udiv", "urem"):
            ty = (t[1], False)
            a, b = tm.conv(a, ty), tm.conv(b, ty)
        else:
            a, b = self.same(a, b)
        return tm.binop(OPS[op], a, b)

    def same(self, a, b):
        if a.ty == b.ty:
            return a, b
        if a.op == "c":
            return tm.conv(a, b.ty), b
        if b.op == "c":
            return a, tm.conv(b, a.ty)
        ty = (a.ty[0], False)
        return tm.conv(a, ty), tm.conv(b, ty)


def run(mod, hooks, setup, name, limit=3000000, deadline=None, maxpaths=16):
    """all paths of a call: list of (condition, exec, pointers, result)"""
    out = []
    todo = [[]]
    while todo:
        pre = todo.pop()
        ex = Exec(mod, hooks() if callable(hooks) else hooks, limit, deadline)
        ex.path = [list(x) for x in pre]
        args = setup(ex)
        r = ex.call(name, args)
        for k in range(len(pre), len(ex.path)):
            todo.append([list(x) for x in ex.path[:k]] + [[ex.path[k][0], False]])
        cond = tm.band(*[c if v else tm.bnot(c) for c, v in ex.path]) if ex.path else TRUE
        out.append((cond, ex, args, r))
        if len(out) > maxpaths:
            raise Unsupported("too many paths")
    return out
