"""Points: symbolic operands, expected results, concrete pools."""
from .fields import *
from . import fev
from symgo import ff
from symgo.ff import fv, fc, fadd as A_, fsub as S_, fmul as M_, fneg as N_, fmuls, fadds, fk, ONE, ZERO, FTY

D = fc(ref.d)
TYPES = {"EP": ED + ".ExtendedPoint", "CP": ED + ".CompletedPoint", "PP": ED + ".ProjectivePoint", "NP": ED + ".NielsPoint", "JP": ED + ".JacobiPoint",
         "P": MOD + ".Point", "FE": ED + ".FieldElement"}


def TN(kind, m):
    return "(*%s).%s" % (TYPES[kind], m)


def sq(x):
    return M_(x, x)


class Pt:
    """a symbolic affine curve point and its representations"""

    def __init__(self, name):
        self.name = name
        self.x, self.y = fv(name + ".x"), fv(name + ".y")
        self.z, self.w = fv(name + ".z"), fv(name + ".w")

    def hyps(self):
        x2, y2 = sq(self.x), sq(self.y)
        return [S_(S_(y2, x2), A_(ONE, fmuls(D, x2, y2)))]

    def nes(self):
        return [self.z, self.w]

    def rep(self, kind):
        x, y, z, w = self.x, self.y, self.z, self.w
        if kind in ("EP", "P"):
            return (M_(x, z), M_(y, z), z, fmuls(x, y, z))
        if kind == "PP":
            return (M_(x, z), M_(y, z), z)
        if kind == "CP":
            return (M_(x, z), M_(y, w), z, w)
        if kind == "NP":
            return (A_(y, x), S_(y, x), fmuls(fc(2), D, x, y))
        raise ValueError(kind)


def matches(c, kind, val, num):
    """does the representation val denote the affine point ((xn, xd), (yn, yd))?  Returns None or a description."""
    (xn, xd), (yn, yd) = num
    if kind in ("EP", "P", "PP"):
        X, Y, Z = val[:3]
        if not c.nonzero(Z):
            return "Z may be 0"
        if not c.zero(S_(M_(X, xd), M_(Z, xn))):
            return "x coordinate"
        if not c.zero(S_(M_(Y, yd), M_(Z, yn))):
            return "y coordinate"
        if kind != "PP" and not c.zero(S_(M_(X, Y), M_(Z, val[3]))):
            return "XY != ZT"
    elif kind == "CP":
        X, Y, Z, T = val
        if not c.nonzero(Z) or not c.nonzero(T):
            return "Z or T may be 0"
        if not c.zero(S_(M_(X, xd), M_(Z, xn))):
            return "x coordinate"
        if not c.zero(S_(M_(Y, yd), M_(T, yn))):
            return "y coordinate"
    elif kind == "NP":
        p, m, t = val
        # (y+x, y-x, 2dxy)
        if not c.zero(S_(fmuls(p, xd, yd), A_(M_(yn, xd), M_(xn, yd)))):
            return "y+x"
        if not c.zero(S_(fmuls(m, xd, yd), S_(M_(yn, xd), M_(xn, yd)))):
            return "y-x"
        if not c.zero(S_(fmuls(t, xd, yd), fmuls(fc(2), D, xn, yn))):
            return "2dxy"
    return None


def law(P, Q, sign=1):
    """numerators and denominators of P + sign*Q"""
    x2 = Q.x if sign > 0 else N_(Q.x)
    k = fmuls(D, P.x, P.y, x2, Q.y)
    return (A_(M_(P.x, Q.y), M_(P.y, x2)), A_(ONE, k)), (A_(M_(P.y, Q.y), M_(P.x, x2)), S_(ONE, k))


def complete(P, Q):
    """1 +- d x1 x2 y1 y2 != 0: inverses u, v (the completeness lemma is a goal of C08)"""
    k = fmuls(D, P.x, P.y, Q.x, Q.y)
    u, v = fv("inv+" + P.name + Q.name), fv("inv-" + P.name + Q.name)
    return [S_(M_(A_(ONE, k), u), ONE), S_(M_(S_(ONE, k), v), ONE)]


# ---- concrete points ------------------------------------------------------------

def limbs_of(B, v, alt=False):
    """limbs of v; alt: those of v + p for the few v where that is reduced as well"""
    v %= ref.p
    if B.n == 5:
        if alt and v < 19:
            v += ref.p
        return [str((v >> (51 * i)) & (2**51 - 1)) for i in range(5)]
    out, c = [], 0
    for i in range(10):
        w = 26 if i % 2 == 0 else 25
        x = ((v >> B.W[i]) & (2**w - 1)) + c
        c = (x + (1 << (w - 1))) >> w
        out.append(x - (c << w))
    out[0] += 19 * c
    c = (out[0] + (1 << 25)) >> 26
    out[0] -= c << 26
    out[1] += c
    return [str(x) for x in out]


def ep(B, P, z=1, alt=False):
    x, y = P
    return [limbs_of(B, x * z, alt), limbs_of(B, y * z, alt), limbs_of(B, z, alt), limbs_of(B, x * y % ref.p * z, alt)]


def rep(B, kind, P, z=1, w=1):
    x, y = P
    if kind in ("EP", "P"):
        return ep(B, P, z)
    if kind == "PP":
        return ep(B, P, z)[:3]
    if kind == "CP":
        return [limbs_of(B, x * z), limbs_of(B, y * w), limbs_of(B, z), limbs_of(B, w)]
    if kind == "NP":
        return [limbs_of(B, y + x), limbs_of(B, y - x), limbs_of(B, 2 * ref.d * x * y)]


def torsion8():
    # points of order dividing 8: 4-torsion and halves of (i, 0)
    out = list(ref.TORSION4)
    y2 = None
    # order 8: 2*(x,y) = (+-i, 0): x^2 + y^2 = 0 -> y^2 = -x^2 = ..., -2x^2 = 1 + d x^4 *(-1) ...
    p, d = ref.p, ref.d
    # y = i*x*e: y^2 = -x^2; curve: -2x^2 = 1 - d x^4 -> d x^4 - 2 x^2 - 1 = 0 -> x^2 = (1 +- sqrt(1+d))/d
    ok, s = ref.sqrt_ratio(1 + d, 1)
    if ok:
        for r in (s, p - s):
            x2 = (1 + r) * ref.inv(d) % p
            ok2, x = ref.sqrt_ratio(x2, 1)
            if ok2:
                for xx in (x, p - x):
                    for e in (ref.I, p - ref.I):
                        P = (xx, xx * e % p)
                        if ref.on_curve(P) and P not in out:
                            out.append(P)
    return out


_special = []


def coordpoints(k):
    """curve points for which x, y or xy is k, or which k encodes"""
    p, d = ref.p, ref.d
    out = []

    def put(x, y):
        P = (x % p, y % p)
        if ref.on_curve(P) and P not in out:
            out.append(P)
    roots = lambda a: [r for ok, r0 in [ref.sqrt_ratio(a % p, 1)] if ok for r in (r0, -r0 % p)]
    k2 = k * k % p
    for y in roots((1 + k2) * ref.inv(1 - d * k2)):
        put(k, y)
    for x in roots((k2 - 1) * ref.inv(1 + d * k2)):
        put(x, k)
    # xy = k: Y^2 - (1 + d k^2) Y - k^2 = 0 for Y = y^2
    b = 1 + d * k2
    for r in roots(b * b + 4 * k2):
        for y in roots((b + r) * ref.inv(2)):
            put(k * ref.inv(y), y)
    return out


def polyroots(f):
    """roots in the field of a polynomial (coefficients from the constant one up)"""
    p = ref.p

    def trim(a):
        a = [x % p for x in a]
        while a and not a[-1]:
            a.pop()
        return a

    def mod(a, b):
        a, i = trim(a), ref.inv(b[-1])
        while len(a) >= len(b):
            c, k = a[-1] * i % p, len(a) - len(b)
            a = trim([x - (c * b[j - k] if j >= k else 0) for j, x in enumerate(a[:-1])])
        return a

    def mul(a, b, m):
        r = [0] * (len(a) + len(b))
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                r[i + j] += x * y
        return mod(r, m)

    def power(a, e, m):
        r = [1]
        for bit in bin(e)[2:]:
            r = mul(r, r, m)
            if bit == "1":
                r = mul(r, a, m)
        return r

    def gcd(a, b):
        while b:
            a, b = b, mod(a, b)
        return a

    def less(a, b):
        n = max(len(a), len(b))
        return trim([x - y for x, y in zip(a + [0] * (n - len(a)), b + [0] * (n - len(b)))])

    def split(g):
        if len(g) < 2:
            return []
        if len(g) == 2:
            return [-g[0] * ref.inv(g[1]) % p]
        for t in range(60):
            h = gcd(g, less(power([t * t + 7, 1], (p - 1) // 2, g), [1]))
            if 1 < len(h) < len(g):
                q, a, i = [], list(g), ref.inv(h[-1])
                while len(a) >= len(h):
                    c = a[-1] * i % p
                    q.append(c)
                    k = len(a) - len(h)
                    a = [(x - (c * h[j - k] if j >= k else 0)) % p for j, x in enumerate(a)][:-1]
                return split(h) + split(trim(q[::-1]))
        return []
    f = trim(f)
    return split(gcd(f, less(power([0, 1], p, f), [0, 1]))) if len(f) > 2 else split(f)


def nielspoints(k):
    """curve points for which 2dxy, y + x or y - x is k"""
    p, d, h = ref.p, ref.d, ref.inv(2)
    out = coordpoints(k * ref.inv(2 * d) % p)
    if k % p:
        for e in (1, -1):                 # k^2 (k^2 - 4ew) = (1 + dw^2)^2 for w = xy
            for w in polyroots([1 - pow(k, 4, p), 4 * e * k * k, 2 * d, 0, d * d]):
                o = (1 + d * w * w) * ref.inv(k)
                P = ((k - o) * h % p, (k + o) * h % p) if e == 1 else ((o - k) * h % p, (k + o) * h % p)
                if ref.on_curve(P):
                    out.append(P)
    return out


def special_points(even=False):
    """curve points for which x, y, ix, iy, xy, ixy or the encoding s is one of the values 0..18 that have a second reduced representation, or the negative of one"""
    if not _special:
        p = ref.p
        for k in [k * s * c % p for k in range(1, 19) for s in (1, p - 1) for c in (1, ref.I)]:
            _special.extend(P for P in coordpoints(k) if P not in _special)
        for k in range(0, 40, 2):
            P = ref.decode(k.to_bytes(32, "little"))
            if P and P not in _special:
                _special.append(P)
    return [P for P in _special if not even or ref.is_sq(1 - P[1] ** 2)]


def hint_niels(ctx):
    memo = ctx.__dict__.setdefault("_reps", {})
    if "niels" not in memo:
        memo["niels"] = [(P, 1) for v in getattr(ctx, "hints", [])[:30] for P in nielspoints(v % ref.p)]
    return memo["niels"]


def hint_reps(ctx, even=False, most=1500):
    """points and scales for which a coordinate (or a simple function of the coordinates) is one of the values the goals asked for"""
    memo = ctx.__dict__.setdefault("_reps", {})
    if (even, most) in memo:
        return memo[even, most]
    out, head = [], 0
    p = ref.p
    bases = [ref.add(ref.mul(k, ref.BASE), ref.TORSION4[j]) for k, j in ((1, 0), (2, 1), (5, 2), (77, 3), (ref.l - 3, 0))]
    if not even:
        bases.append(ref.add(ref.mul(9, ref.BASE), torsion8()[-1]))
    for j, v in enumerate(getattr(ctx, "hints", [])):
        v %= p
        for k in (v, -v % p):
            ps = coordpoints(k)
            for w in (k, k * ref.I % p):
                P = ref.decode(ref.b32(w))
                if P:
                    ps.append(P)
            for P in ps:
                out += [(P, 1), (P, 2**200 + 77)]
        for x, y in bases[:2] if j < 12 else bases if j % 6 == 0 else ():
            for c in (x, y, 1, x * y, x + y, y - x, 1 + y, 1 - y, 2 * x, 2 * y, 2):
                if c % p and v:
                    out.append(((x, y), v * ref.inv(c % p) % p))
            for c in (x * y, x * x, y * y, 1, 1 - y * y, x * x + y * y, y * y - x * x):
                ok, z = ref.sqrt_ratio(v, c % p) if c % p else (False, 0)
                if ok and z:
                    out.append(((x, y), z))
        if j < 12:
            head = len(out)
    if even:
        keep = [ref.is_sq(1 - P[1] ** 2) for P, z in out]
        head = sum(keep[:head])
        out = [x for x, k in zip(out, keep) if k]
    head = min(head, most)
    memo[even, most] = out = out[:head] + out[head::max(1, (len(out) - head) // most)]
    return out


def sample_points(ctx, n=6, even=False):
    """curve points: small order, base multiples with torsion, random ones, special coordinates"""
    r = rng(ctx, "pts%s" % even)
    tor = ref.TORSION4 if even else torsion8()
    out = list(tor)
    for k in [1, 2, 3, ref.l - 1, 8] + [r.randrange(ref.l) for _ in range(n)]:
        P = ref.mul(k, ref.BASE)
        for t in (tor if k in (1, 2) else [r.choice(tor) for _ in range(2)]):
            out.append(ref.add(P, t))
    for b in (0, 1, 2, 5, 2**200):
        P = ref.elligator_fe(b)
        if ref.on_curve(P):
            out.append(P)
    seen, res = set(), []
    for P in out:
        if P not in seen and ref.on_curve(P):
            seen.add(P)
            res.append(P)
    return res


def scales(ctx, n=3):
    r = rng(ctx, "z")
    return [1, ref.p - 1, 2, ref.I, 2**255 - 20, 2**254 + 12345] + [r.randrange(1, ref.p) for _ in range(n)]
