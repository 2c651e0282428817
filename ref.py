"""Independent big-integer reference: GF(2^255-19), Edwards25519, Ristretto255 (RFC 9496), scalars."""
import hashlib

p = 2**255 - 19
l = 2**252 + 27742317777372353535851937790883648493
d = -121665 * pow(121666, -1, p) % p
I = pow(2, (p - 1) // 4, p)


def neg(x):
    return (x % p) & 1


def absf(x):
    x %= p
    return p - x if x & 1 else x


def is_sq(x):
    return pow(x % p, (p - 1) // 2, p) in (0, 1)


def sqrt_ratio(u, v):
    """RFC 9496 SQRT_RATIO_M1: (was_square, non-negative root)"""
    u, v = u % p, v % p
    r = u * pow(v, 3, p) * pow(u * pow(v, 7, p), (p - 5) // 8, p) % p
    c = v * r * r % p
    ok = c == u
    fl = c == -u % p
    fli = c == -u * I % p
    if fl or fli:
        r = r * I % p
    return (ok or fl), absf(r)


def inv(x):
    return pow(x, p - 2, p)


SQRT_AD_M1 = sqrt_ratio(-d - 1, 1)[1]      # sqrt(a*d - 1), a = -1
if not neg(SQRT_AD_M1):
    SQRT_AD_M1 = p - SQRT_AD_M1
assert SQRT_AD_M1 == 25063068953384623474111414158702152701244531502492656460079210482610430750235
INVSQRT_A_M_D = sqrt_ratio(1, -1 - d)[1]
ONE_MINUS_D_SQ = (1 - d * d) % p
D_MINUS_ONE_SQ = (d - 1) ** 2 % p

# points are affine pairs (x, y)
ZERO = (0, 1)
_by = 4 * inv(5) % p
_bx = sqrt_ratio(_by * _by - 1, d * _by * _by + 1)[1]
BASE = (_bx, _by)


def on_curve(P):
    x, y = P
    return (-x * x + y * y - 1 - d * x * x * y * y) % p == 0


def add(P, Q):
    x1, y1 = P
    x2, y2 = Q
    k = d * x1 * x2 * y1 * y2 % p
    return ((x1 * y2 + y1 * x2) * inv(1 + k) % p, (y1 * y2 + x1 * x2) * inv(1 - k) % p)


def negp(P):
    return (-P[0] % p, P[1])


def sub(P, Q):
    return add(P, negp(Q))


def mul(n, P):
    # extended coordinates, double and add
    if n < 0:
        n, P = -n, negp(P)
    X, Y, Z, T = 0, 1, 1, 0
    x, y = P
    Q = (x, y, 1, x * y % p)
    R = (X, Y, Z, T)
    for b in bin(n)[2:]:
        R = _add(R, R)
        if b == "1":
            R = _add(R, Q)
    zi = inv(R[2])
    return (R[0] * zi % p, R[1] * zi % p)


def _add(P, Q):
    X1, Y1, Z1, T1 = P
    X2, Y2, Z2, T2 = Q
    A = (Y1 - X1) * (Y2 - X2) % p
    B = (Y1 + X1) * (Y2 + X2) % p
    C = 2 * d * T1 * T2 % p
    D = 2 * Z1 * Z2 % p
    E, F, G, H = B - A, D - C, D + C, B + A
    return (E * F % p, G * H % p, F * G % p, E * H % p)


def encode(P):
    """RFC 9496 4.3.2"""
    x0, y0 = P
    z0, t0 = 1, P[0] * P[1] % p
    u1 = (z0 + y0) * (z0 - y0) % p
    u2 = x0 * y0 % p
    _, isr = sqrt_ratio(1, u1 * u2 * u2)
    den1 = isr * u1 % p
    den2 = isr * u2 % p
    z_inv = den1 * den2 * t0 % p
    ix0 = x0 * I % p
    iy0 = y0 * I % p
    ench = den1 * INVSQRT_A_M_D % p
    rotate = neg(t0 * z_inv)
    x, y, den_inv = (iy0, ix0, ench) if rotate else (x0, y0, den2)
    if neg(x * z_inv):
        y = -y % p
    return absf(den_inv * (z0 - y)).to_bytes(32, "little")


def decode(b):
    """RFC 9496 4.3.1: affine point or None"""
    s = int.from_bytes(b, "little")
    if s >= p or s & 1:
        return None
    ss = s * s % p
    u1, u2 = (1 - ss) % p, (1 + ss) % p
    u2s = u2 * u2 % p
    v = (-(d * u1 * u1) - u2s) % p
    ok, isr = sqrt_ratio(1, v * u2s)
    den_x = isr * u2 % p
    den_y = isr * den_x * v % p
    x = absf(2 * s * den_x)
    y = u1 * den_y % p
    t = x * y % p
    if not ok or neg(t) or y == 0:
        return None
    return (x, y)


def elligator(b):
    """RFC 9496 4.3.4 MAP on 32 bytes (top bit ignored): affine point"""
    t = (int.from_bytes(b, "little") & (2**255 - 1)) % p
    return elligator_fe(t)


def elligator_fe(t):
    r = I * t * t % p
    u = (r + 1) * ONE_MINUS_D_SQ % p
    v = (-1 - r * d) * (r + d) % p
    ok, s = sqrt_ratio(u, v)
    s2 = -absf(s * t) % p
    c = -1
    if not ok:
        s, c = s2, r
    N = (c * (r - 1) * D_MINUS_ONE_SQ - v) % p
    w0 = 2 * s * v % p
    w1 = N * SQRT_AD_M1 % p
    w2 = (1 - s * s) % p
    w3 = (1 + s * s) % p
    return (w0 * inv(w1) % p if w1 else 0, w2 * inv(w3) % p) if True else None


def equal(P, Q):
    return (P[0] * Q[1] - Q[0] * P[1]) % p == 0 or (P[1] * Q[1] - P[0] * Q[0]) % p == 0


def lizard_buf(data):
    h = bytearray(hashlib.sha256(data).digest())
    h[8:24] = data
    h[0] &= 254
    h[31] &= 63
    return bytes(h)


def sc(b):
    return int.from_bytes(b, "little")


def b32(n):
    return n.to_bytes(32, "little")


TORSION4 = [(0, 1), (0, p - 1), (I, 0), (p - I, 0)]


def neutral_preimages():
    """the non-negative elements that the map sends to the neutral element (a representative in the torsion)"""
    a = (1 - d * d) % p
    rs = [0, -1, -inv(d), -d]
    # u = v, r*u = v, and N = 0 of both cases: quadratics A r^2 + B r + C
    D2 = D_MINUS_ONE_SQ
    qs = [(d, a + 1 + d * d, a + d), (a + d, a + 1 + d * d, d), (d, 1 + d * d - D2, d + D2), (D2 + d, 1 + d * d - D2, d)]
    for A, B, C in qs:
        ok, w = sqrt_ratio(B * B - 4 * A * C, 1)
        if ok:
            rs += [(-B + s * w) * inv(2 * A) for s in (1, -1)]
    out = set()
    for r in rs:
        ok, t = sqrt_ratio(r * inv(I), 1)
        if ok and elligator_fe(absf(t)) in TORSION4:
            out.add(absf(t))
    return sorted(out)


def preimages(P):
    """the non-negative elements that the map sends to the class of P (not the neutral one)"""
    a = (1 - d * d) % p
    out = set()
    for y in (P[1], -P[1], I * P[0], -I * P[0]):
        if (1 + y) % p == 0:
            continue
        m = (1 - y) * inv(1 + y) % p           # s^2
        # m v = u and m v = r u, with v = -d r^2 - (1 + d^2) r - d and u = a (r + 1)
        for A, B, C in ((m * d, m * (1 + d * d) + a, m * d + a), (m * d + a, m * (1 + d * d) + a, m * d)):
            ok, w = sqrt_ratio((B * B - 4 * A * C) % p, 1)
            if not ok or A % p == 0:
                continue
            for s in (1, -1):
                ok, t = sqrt_ratio((-B + s * w) * inv(2 * A) % p * inv(I) % p, 1)
                if ok and equal(elligator_fe(absf(t)), P):
                    out.add(absf(t))
    return sorted(out)
