"""Hash-consed terms for machine integers and booleans.

A term has an operator, arguments and a type.  Types: (w, s) for a w-bit integer
(s: signed) and BOOL.  Constants are folded on construction, so that concrete
execution is the special case in which all inputs are constants.
"""
BOOL = (0, False)
_tab = {}
_n = [0]


class T:
    __slots__ = ("op", "args", "ty", "id", "_lif", "_iv", "_dep")

    def __repr__(self):
        return show(self, 3)


def mk(op, args, ty):
    key = (op, args, ty)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.ty = op, args, ty
        _n[0] += 1
        t.id = _n[0]
        t._lif = t._iv = t._dep = None
        _tab[key] = t
    return t


def show(t, d=99):
    if not isinstance(t, T):
        return str(t)
    if t.op == "c":
        return str(t.args[0])
    if t.op == "var":
        return str(t.args[0])
    if d == 0:
        return "#%d" % t.id
    return "(%s %s)" % (t.op, " ".join(show(a, d - 1) for a in t.args))


def norm(v, ty):
    w, s = ty
    v &= (1 << w) - 1
    if s and v >> (w - 1):
        v -= 1 << w
    return v


def rng(ty):
    w, s = ty
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def const(v, ty):
    return mk("c", (norm(v, ty),), ty)


TRUE = mk("c", (True,), BOOL)
FALSE = mk("c", (False,), BOOL)


def boolc(b):
    return TRUE if b else FALSE


def var(name, ty):
    return mk("var", (name,), ty)


def isc(t):
    return t.op == "c"


def cv(t):
    return t.args[0]


def _shl(a, n, ty):
    return norm(a << n, ty) if n < ty[0] else 0


def _shr(a, n, ty):
    return a >> min(n, ty[0])


def _quo(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def binop(op, a, b):
    """add sub mul and or xor andnot quo rem on two terms of the same type."""
    ty = a.ty
    ca, cb = a.op == "c", b.op == "c"
    if ca and cb:
        x, y = a.args[0], b.args[0]
        if op == "add":
            r = x + y
        elif op == "sub":
            r = x - y
        elif op == "mul":
            r = x * y
        elif op == "and":
            r = x & y
        elif op == "or":
            r = x | y
        elif op == "xor":
            r = x ^ y
        elif op == "andnot":
            r = x & ~y
        elif op == "quo":
            r = _quo(x, y)
        elif op == "rem":
            r = x - y * _quo(x, y)
        else:
            raise ValueError(op)
        return const(r, ty)
    if op == "add":
        if ca:
            a, b, ca, cb = b, a, cb, ca
        if cb and b.args[0] == 0:
            return a
        if a.id > b.id and not cb:
            a, b = b, a
    elif op == "sub":
        if cb and b.args[0] == 0:
            return a
        if a is b:
            return const(0, ty)
    elif op == "mul":
        if ca:
            a, b, ca, cb = b, a, cb, ca
        if cb:
            if b.args[0] == 0:
                return b
            if b.args[0] == 1:
                return a
        elif a.id > b.id:
            a, b = b, a
    elif op == "and":
        if ca:
            a, b, ca, cb = b, a, cb, ca
        if cb:
            if b.args[0] == 0:
                return b
            if norm(b.args[0], (ty[0], True)) == -1:
                return a
            # (x & m) & n
            if a.op == "and" and a.args[1].op == "c":
                return binop("and", a.args[0], const(a.args[1].args[0] & b.args[0], ty))
        if a is b:
            return a
        if a.id > b.id and not cb:
            a, b = b, a
    elif op in ("or", "xor"):
        if ca:
            a, b, ca, cb = b, a, cb, ca
        if cb and b.args[0] == 0:
            return a
        if a is b:
            return a if op == "or" else const(0, ty)
        if a.id > b.id and not cb:
            a, b = b, a
    elif op == "andnot":
        if cb:
            return binop("and", a, const(~b.args[0], ty))
        if ca and a.args[0] == 0:
            return a
    return mk(op, (a, b), ty)


def shift(op, a, b):
    """shl/shr; b is a term of any integer type (Go semantics, non-negative)."""
    if b.op == "c":
        n = b.args[0]
        if a.op == "c":
            return const(_shl(a.args[0], n, a.ty) if op == "shl" else _shr(a.args[0], n, a.ty), a.ty)
        if n == 0:
            return a
        if n >= a.ty[0]:
            if op == "shl" or not a.ty[1]:
                return const(0, a.ty)
            n = a.ty[0] - 1
        return mk(op, (a, const(n, (16, False))), a.ty)
    if a.op == "c" and a.args[0] == 0:
        return a
    return mk(op, (a, b), a.ty)


def neg(a):
    return binop("sub", const(0, a.ty), a)


def inv(a):  # ^a
    return binop("xor", a, const(-1, a.ty))


def conv(a, ty):
    if a.ty == ty:
        return a
    if a.op == "c":
        return const(a.args[0], ty)
    if a.op == "ite" and a.args[1].op == "c" and a.args[2].op == "c":
        return ite(a.args[0], const(a.args[1].args[0], ty), const(a.args[2].args[0], ty))
    if a.op == "conv":
        b = a.args[0]
        # widening then anything narrower/equal to the inner value keeps low bits
        if ty[0] <= a.ty[0] and (b.ty[0] <= a.ty[0]):
            if b.ty == ty:
                return b
            if ty[0] <= b.ty[0]:
                return conv(b, ty)
            # a is a widening of b to a.ty, then truncated to ty, still wider than b
            return mk("conv", (b,), ty)
        if ty[0] <= a.ty[0] and ty[0] <= b.ty[0]:
            return conv(b, ty)
    return mk("conv", (a,), ty)


def cmp(op, a, b):
    """eq ne lt le"""
    if op == "ne":
        return bnot(cmp("eq", a, b))
    if a.op == "c" and b.op == "c":
        x, y = a.args[0], b.args[0]
        return boolc(x == y if op == "eq" else x < y if op == "lt" else x <= y)
    if a is b:
        return boolc(op != "lt")
    if op == "eq":
        if a.op == "c":
            a, b = b, a
        if a.op == "ite" and b.op == "c":
            l, r = cmp("eq", a.args[1], b), cmp("eq", a.args[2], b)
            if l.op == "c" or r.op == "c":
                return bite(a.args[0], l, r)
        if a.ty == BOOL:
            if b.op == "c":
                return a if b.args[0] else bnot(a)
        if a.id > b.id and b.op != "c":
            a, b = b, a
    return mk(op, (a, b), BOOL)


def bnot(a):
    if a.op == "c":
        return boolc(not a.args[0])
    if a.op == "bnot":
        return a.args[0]
    return mk("bnot", (a,), BOOL)


def band(*xs):
    s = []
    seen = set()
    for x in xs:
        for y in (x.args if x.op == "band" else (x,)):
            if y is FALSE:
                return FALSE
            if y is TRUE or y.id in seen:
                continue
            seen.add(y.id)
            s.append(y)
    for y in s:
        if bnot(y).id in seen:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda t: t.id)
    return mk("band", tuple(s), BOOL)


def bor(*xs):
    s = []
    seen = set()
    for x in xs:
        for y in (x.args if x.op == "bor" else (x,)):
            if y is TRUE:
                return TRUE
            if y is FALSE or y.id in seen:
                continue
            seen.add(y.id)
            s.append(y)
    for y in s:
        if bnot(y).id in seen:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda t: t.id)
    return mk("bor", tuple(s), BOOL)


def bor_s(*xs):
    """disjunction with complementary conjunctions joined: (A&l)|(A&~l) = A, l|(~l&A) = l|A"""
    ds = []
    for x in xs:
        for y in (x.args if x.op == "bor" else (x,)):
            ds.append(frozenset(y.args) if y.op == "band" else frozenset((y,)))
    if len(ds) > 400:
        return bor(*xs)
    changed = True
    while changed:
        changed = False
        flat = []
        for d in ds:
            y = next(iter(d)) if len(d) == 1 else None
            if y is not None and y.op in ("bor", "band"):
                flat.extend(frozenset(z.args) if z.op == "band" else frozenset((z,)) for z in (y.args if y.op == "bor" else (y,)))
            else:
                flat.append(d)
        ds = flat
        unit = {next(iter(d)) for d in ds if len(d) == 1}
        new = []
        for d in ds:
            if len(d) > 1:
                e = frozenset(l for l in d if bnot(l) not in unit)
                if e != d:
                    changed = True
                    d = e
                if not d:
                    return TRUE
            if d not in new:
                new.append(d)
        ds = new
        for i in range(len(ds)):
            for j in range(i):
                a, b = ds[i], ds[j]
                if a <= b or b <= a:
                    r = a if a <= b else b
                else:
                    x = a ^ b
                    if len(x) != 2 or len(a) != len(b):
                        continue
                    u, v = x
                    if bnot(u) is not v:
                        continue
                    r = a & b
                    if not r:
                        return TRUE
                del ds[i], ds[j]
                ds.append(r)
                changed = True
                break
            if changed:
                break
    return bor(*[band(*d) for d in ds])


def bite(c, a, b):
    return bor(band(c, a), band(bnot(c), b))


def ite(c, a, b):
    if c.op == "c":
        return a if c.args[0] else b
    if a is b:
        return a
    if a.ty == BOOL:
        return bite(c, a, b)
    if c.op == "bnot":
        c, a, b = c.args[0], b, a
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", (c, a, b), a.ty)


def b2i(c, ty):
    return ite(c, const(1, ty), const(0, ty))


def mulhi(a, b):
    if a.op == "c" and b.op == "c":
        return const((a.args[0] * b.args[0]) >> a.ty[0], a.ty)
    for x in (a, b):
        if x.op == "c" and x.args[0] == 0:
            return x
    if a.id > b.id:
        a, b = b, a
    return mk("mulhi", (a, b), a.ty)


def carry3(a, b, c):
    """carry-out of a+b+c (unsigned)"""
    if a.op == "c" and b.op == "c" and c.op == "c":
        return const((a.args[0] + b.args[0] + c.args[0]) >> a.ty[0], a.ty)
    return mk("carry", (a, b, c), a.ty)


def borrow3(a, b, c):
    if a.op == "c" and b.op == "c" and c.op == "c":
        return const(1 if a.args[0] - b.args[0] - c.args[0] < 0 else 0, a.ty)
    return mk("borrow", (a, b, c), a.ty)


def rebuild(u, a):
    """u with the arguments a, simplified"""
    op = u.op
    if op in ("add", "sub", "mul", "and", "or", "xor", "andnot", "quo", "rem"):
        return binop(op, a[0], a[1])
    if op in ("shl", "shr"):
        return shift(op, a[0], a[1])
    if op == "conv":
        return conv(a[0], u.ty)
    if op in ("eq", "lt", "le"):
        return cmp(op, a[0], a[1])
    if op == "bnot":
        return bnot(a[0])
    if op == "band":
        return band(*a)
    if op == "bor":
        return bor(*a)
    if op == "ite":
        return ite(*a)
    if op == "mulhi":
        return mulhi(*a)
    if op == "carry":
        return carry3(*a)
    if op == "borrow":
        return borrow3(*a)
    return mk(op, tuple(a), u.ty)


def subst(ts, env):
    """terms with constants (ints) or terms substituted for atoms"""
    memo = {}
    for u in subterms(list(ts)):
        if u in env:
            v = env[u]
            memo[u.id] = v if isinstance(v, T) else boolc(v) if u.ty == BOOL else const(v, u.ty)
        elif not any(isinstance(x, T) for x in u.args):
            memo[u.id] = u
        else:
            memo[u.id] = rebuild(u, [memo[x.id] if isinstance(x, T) else x for x in u.args])
    return [memo[t.id] for t in ts]


def subterms(ts):
    """All subterms in topological order (arguments first)."""
    out, seen = [], set()
    stack = [(t, False) for t in ts]
    while stack:
        t, d = stack.pop()
        if d:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if isinstance(a, T) and a.id not in seen:
                stack.append((a, False))
    return out


def evaluate(t, env, memo=None):
    """Concrete value of t; env maps terms (atoms) to ints/bools."""
    memo = {} if memo is None else memo
    for u in subterms([t]):
        if u.id in memo:
            continue
        if u in env:
            memo[u.id] = env[u]
            continue
        if u.op == "c":
            memo[u.id] = u.args[0]
            continue
        v = [memo[a.id] if isinstance(a, T) else a for a in u.args]
        memo[u.id] = apply(u, v)
    return memo[t.id]


def apply(u, v):
    op, ty = u.op, u.ty
    if op == "add":
        r = v[0] + v[1]
    elif op == "sub":
        r = v[0] - v[1]
    elif op == "mul":
        r = v[0] * v[1]
    elif op == "and":
        r = v[0] & v[1]
    elif op == "or":
        r = v[0] | v[1]
    elif op == "xor":
        r = v[0] ^ v[1]
    elif op == "andnot":
        r = v[0] & ~v[1]
    elif op == "quo":
        r = _quo(v[0], v[1])
    elif op == "rem":
        r = v[0] - v[1] * _quo(v[0], v[1])
    elif op == "shl":
        return _shl(v[0], v[1], ty)
    elif op == "shr":
        return _shr(v[0], v[1], ty)
    elif op == "conv":
        r = v[0]
    elif op == "eq":
        return v[0] == v[1]
    elif op == "lt":
        return v[0] < v[1]
    elif op == "le":
        return v[0] <= v[1]
    elif op == "bnot":
        return not v[0]
    elif op == "band":
        return all(v)
    elif op == "bor":
        return any(v)
    elif op == "ite":
        return v[1] if v[0] else v[2]
    elif op == "mulhi":
        return (v[0] * v[1]) >> ty[0]
    elif op == "carry":
        return (v[0] + v[1] + v[2]) >> ty[0]
    elif op == "borrow":
        return 1 if v[0] - v[1] - v[2] < 0 else 0
    else:
        raise KeyError("no value for " + show(u, 2))
    return norm(r, ty)
