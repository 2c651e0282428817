"""Models of the standard library functions that the repository calls."""
from . import terms as tm
from .terms import T, TRUE, FALSE, BOOL

U64 = (64, False)
I64 = (64, True)
U8 = (8, False)


def call(ex, st, name, args, ins):
    from .exec import Unsupported, Opaque, PanicPath, Fn
    f = MODELS.get(name)
    if f is not None:
        r = f(ex, st, args, ins)
        return r if isinstance(r, list) else [(st, r)]
    if name.endswith(".init") or ".init#" in name:
        return [(st, None)]
    raise Unsupported("call of " + name)


def invoke(ex, st, recv, meth, args, ins):
    from .exec import Unsupported, Opaque, Ptr, Slice
    if meth == "Read" and israndreader(recv):
        return [(st, rand_read(ex, st, args, ins))]
    if isinstance(recv, Opaque) and recv.kind == "hasher":
        kind, n, o = recv.data
        old = ex.load(st, Ptr(o))
        if meth == "Write":
            new = tuple(ex.sl_list(st, args[0]))
            ex.store(st, Ptr(o), old + new)
            return [(st, (tm.const(len(new), I64), None))]
        if meth == "Reset":
            ex.store(st, Ptr(o), ())
            return [(st, None)]
        if meth in ("Size", "BlockSize"):
            return [(st, tm.const(n if meth == "Size" else {"sha512": 128, "sha256": 64}[kind], I64))]
        if meth == "Sum":
            d = args[0]
            vals = list(hashbytes(kind, n, old))
            if d is not None and d.len + n <= d.cap:
                ex.sl_write(st, Slice(d.obj, d.path, d.off, d.cap, d.cap), vals, d.len)
                return [(st, Slice(d.obj, d.path, d.off, d.len + n, d.cap))]
            pre = ex.sl_list(st, d)
            return [(st, Slice(ex.new(st, tuple(pre + vals), "sum"), (), 0, len(pre) + n, len(pre) + n))]
    raise Unsupported("interface method " + meth)


def mul64(ex, st, a, ins):
    return (tm.mulhi(a[0], a[1]), tm.binop("mul", a[0], a[1]))


def add64(ex, st, a, ins):
    ty = a[0].ty
    return (tm.binop("add", tm.binop("add", a[0], a[1]), a[2]), tm.carry3(a[0], a[1], a[2]))


def sub64(ex, st, a, ins):
    return (tm.binop("sub", tm.binop("sub", a[0], a[1]), a[2]), tm.borrow3(a[0], a[1], a[2]))


def ct_compare(ex, st, a, ins):
    x, y = ex.sl_list(st, a[0]), ex.sl_list(st, a[1])
    if len(x) != len(y):
        return tm.const(0, I64)
    return tm.b2i(tm.band(*[tm.cmp("eq", p, q) for p, q in zip(x, y)]), I64)


def ct_copy(ex, st, a, ins):
    from .exec import PanicPath
    v, d, s = a
    x, y = ex.sl_list(st, d), ex.sl_list(st, s)
    if len(x) != len(y):
        raise PanicPath("subtle: slices have different lengths")
    c = tm.cmp("eq", v, tm.const(1, v.ty))
    # documented: v must be 0 or 1
    ex.oblige(st, tm.bor(c, tm.cmp("eq", v, tm.const(0, v.ty))), "ConstantTimeCopy flag is 0 or 1", ins)
    ex.sl_write(st, d, [tm.ite(c, q, p) for p, q in zip(x, y)])
    return None


def ct_select(ex, st, a, ins):
    c = tm.cmp("eq", a[0], tm.const(1, a[0].ty))
    return tm.ite(c, a[1], a[2])


def ct_eq(ex, st, a, ins):
    return tm.b2i(tm.cmp("eq", a[0], a[1]), I64)


def ct_le(ex, st, a, ins):
    return tm.b2i(tm.cmp("le", a[0], a[1]), I64)


def bytes_equal(ex, st, a, ins):
    x, y = ex.sl_list(st, a[0]), ex.sl_list(st, a[1])
    if len(x) != len(y):
        return FALSE
    r = tm.band(*[tm.cmp("eq", p, q) for p, q in zip(x, y)])
    if not tm.isc(r):
        ex.branches.append((r, st.guard, "bytes.Equal"))
    return r


def error(ex, st, a, ins):
    from .exec import Opaque
    m = a[0] if a and isinstance(a[0], tuple) and a[0] and a[0][0] == "str" else None
    return ("iface", "error", Opaque("error", m))


def hash_model(kind, n):
    def f(ex, st, a, ins):
        vals = tuple(ex.sl_list(st, a[0]))
        return hashbytes(kind, n, vals)
    return f


def hashbytes(kind, n, vals):
    import hashlib
    if all(tm.isc(v) for v in vals):
        d = getattr(hashlib, kind)(bytes(tm.cv(v) for v in vals)).digest()
        return tuple(tm.const(c, U8) for c in d)
    return tuple(tm.mk("hash", (kind, i) + vals, U8) for i in range(n))


def rand_read(ex, st, a, ins):
    from .exec import Opaque
    n = st.ghost.get("#rand", 0)
    sl = a[0]
    k = sl.len if sl is not None else 0
    st.ghost["#rand"] = n + k
    # either fills the buffer or fails; in case of failure the buffer contents are arbitrary
    ok = tm.var("rand_ok_%d" % n, BOOL)
    if k:
        ex.sl_write(st, sl, [tm.var("rand_%d" % (n + i), U8) for i in range(k)])
    from .exec import Mux
    return (tm.const(k, I64), Mux(ok, None, ("iface", "error", Opaque("error"))))


def israndreader(v):
    from .exec import Opaque
    return isinstance(v, Opaque) and v.kind == "global" and v.data == RANDREADER


def io_readfull(ex, st, a, ins):
    if not israndreader(a[0]):
        from .exec import Unsupported
        raise Unsupported("io.ReadFull of another reader")
    return rand_read(ex, st, a[1:], ins)


def hash_new(kind, n):
    def f(ex, st, a, ins):
        from .exec import Opaque
        return Opaque("hasher", (kind, n, ex.new(st, (), "hasher")))
    return f


RANDREADER = "crypto/rand.Reader"
B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"



# ---- math/big ------------------------------------------------------------------
# A big.Int is an Opaque("big", data): ("var", name), ("const", n), ("mod", data, n),
# ("bytes", terms big endian).

def _big(ex, st, p):
    from .exec import Opaque, Unsupported
    v = ex.load(st, p)
    if isinstance(v, Opaque) and v.kind == "big":
        return v.data
    if v == ex.p.zero("math/big.Int"):
        return ("const", 0)
    raise Unsupported("big.Int value")


def _bigput(ex, st, p, data):
    from .exec import Opaque
    ex.store(st, p, Opaque("big", data))
    return p


def _constslice(ex, st, s):
    if all(tm.isc(t) for t in s):
        return int.from_bytes(bytes(tm.cv(t) for t in s), "big")


def big_setstring(ex, st, a, ins):
    from .exec import Unsupported
    if not (isinstance(a[1], tuple) and a[1][0] == "str" and tm.isc(a[2])):
        raise Unsupported("SetString")
    n = int(a[1][1].decode(), tm.cv(a[2]))
    return (_bigput(ex, st, a[0], ("const", n)), TRUE)


def big_setbytes(ex, st, a, ins):
    s = tuple(ex.sl_list(st, a[1]))
    c = _constslice(ex, st, s)
    return _bigput(ex, st, a[0], ("const", c) if c is not None else ("bytes", s))


def big_setint(ex, st, a, ins):
    from .exec import Unsupported
    if not tm.isc(a[1]):
        raise Unsupported("SetInt of a symbolic value")
    return _bigput(ex, st, a[0], ("const", tm.cv(a[1])))


def big_set(ex, st, a, ins):
    return _bigput(ex, st, a[0], _big(ex, st, a[1]))


def big_newint(ex, st, a, ins):
    from .exec import Unsupported, Ptr, Opaque
    if not tm.isc(a[0]):
        raise Unsupported("NewInt of a symbolic value")
    return Ptr(ex.new(st, Opaque("big", ("const", tm.cv(a[0]))), "big"))


def big_mod(ex, st, a, ins):
    from .exec import Unsupported
    x, m = _big(ex, st, a[1]), _big(ex, st, a[2])
    if m[0] != "const" or m[1] <= 0:
        raise Unsupported("Mod by a symbolic value")
    if x[0] == "const":
        return _bigput(ex, st, a[0], ("const", x[1] % m[1]))
    if x[0] == "mod" and m[1] % x[2] == 0:
        return _bigput(ex, st, a[0], x)
    return _bigput(ex, st, a[0], ("mod", x, m[1]))


def big_rem(ex, st, a, ins):
    from .exec import Unsupported
    x, m = _big(ex, st, a[1]), _big(ex, st, a[2])
    if m[0] != "const" or m[1] <= 0:
        raise Unsupported("Rem by a symbolic value")
    if x[0] == "const":
        return _bigput(ex, st, a[0], ("const", abs(x[1]) % m[1] * (-1 if x[1] < 0 else 1)))
    if x[0] == "mod" and m[1] % x[2] == 0:
        return _bigput(ex, st, a[0], x)
    return _bigput(ex, st, a[0], ("rem", x, m[1]))


def big_arith(op):
    def f(ex, st, a, ins):
        from .exec import Unsupported
        x, y = _big(ex, st, a[1]), _big(ex, st, a[2])
        if x[0] != "const" or y[0] != "const":
            raise Unsupported("big.Int arithmetic")
        return _bigput(ex, st, a[0], ("const", op(x[1], y[1])))
    return f


def big_lsh(ex, st, a, ins):
    from .exec import Unsupported
    x = _big(ex, st, a[1])
    if x[0] != "const" or not tm.isc(a[2]):
        raise Unsupported("big.Int shift")
    return _bigput(ex, st, a[0], ("const", x[1] << tm.cv(a[2])))


def bigvars(data, n):
    return tuple(tm.var("big%x_%d_%d" % (abs(hash(data)) & 0xffffff, n, i), U8) for i in range(n))


def big_bytes(ex, st, a, ins):
    from .exec import Unsupported, Slice
    x = _big(ex, st, a[0])
    if x[0] == "const":
        b = abs(x[1]).to_bytes((abs(x[1]).bit_length() + 7) // 8, "big")
        return Slice(ex.new(st, tuple(tm.const(c, U8) for c in b), "bb"), (), 0, len(b), len(b))
    if x[0] not in ("mod", "rem"):
        raise Unsupported("Bytes of an unreduced big.Int")
    out = []
    for n in range((x[2] - 1).bit_length() + 7 >> 3, -1, -1):
        s2 = st.fork()
        vs = bigvars(x, n)
        s2.ghost["#bigbytes"] = (x, vs)
        s2.guard = s2.guard + (tm.var("biglen_%d" % n, BOOL),)
        o = ex.new(s2, vs[::-1], "bb")
        out.append((s2, Slice(o, (), 0, n, n)))
    return out


def big_fillbytes(ex, st, a, ins):
    from .exec import Unsupported, PanicPath
    x = _big(ex, st, a[0])
    n = a[1].len if a[1] is not None else 0
    if x[0] == "const":
        if abs(x[1]).bit_length() > 8 * n:
            raise PanicPath("math/big: buffer too small to fit value")
        ex.sl_write(st, a[1], [tm.const(c, U8) for c in abs(x[1]).to_bytes(n, "big")])
        return a[1]
    if x[0] != "mod":
        raise Unsupported("FillBytes of an unreduced big.Int")
    k = (x[2] - 1).bit_length() + 7 >> 3
    if n < k:
        raise Unsupported("FillBytes into a small buffer")
    vs = bigvars(x, k)
    st.ghost["#bigbytes"] = (x, vs)
    ex.sl_write(st, a[1], [tm.const(0, U8)] * (n - k) + list(vs[::-1]))
    return a[1]


# ---- encoding/base64, encoding/hex ----------------------------------------------
# The encodings are described by their contracts: Encode is injective and opaque;
# Decode of a text fails or yields n <= DecodedLen bytes.

def _enc(a):
    from .exec import Unsupported, Ptr
    e = a[0]
    if isinstance(e, tuple) and len(e) == 2 and e[0] == "enc":
        return e[1]
    raise Unsupported("base64 encoding object")


PAD = {"RawURLEncoding": False, "RawStdEncoding": False, "URLEncoding": True, "StdEncoding": True}


def b64len(kind, n):
    return (n + 2) // 3 * 4 if PAD[kind] else (n * 8 + 5) // 6


def b64declen(kind, n):
    return n // 4 * 3 if PAD[kind] else n * 6 // 8


def b64_encodedlen(ex, st, a, ins):
    return tm.const(b64len(_enc(a), tm.cv(a[1])), I64)


def b64_decodedlen(ex, st, a, ins):
    return tm.const(b64declen(_enc(a), tm.cv(a[1])), I64)


def enc_terms(kind, src):
    n = len(src) * 2 if kind == "hex" else b64len(kind, len(src))
    return [tm.mk("enc", (kind, i) + tuple(src), U8) for i in range(n)]


def b64_encode(ex, st, a, ins):
    from .exec import PanicPath
    k = _enc(a)
    out = enc_terms(k, ex.sl_list(st, a[2]))
    if (a[1].len if a[1] is not None else 0) < len(out):
        raise PanicPath("encoding: index out of range")
    if out:
        ex.sl_write(st, a[1], out)
    return None


def b64_encodetostring(ex, st, a, ins):
    return ("strof", tuple(enc_terms(_enc(a), ex.sl_list(st, a[1]))))


def b64_appendencode(ex, st, a, ins):
    from .exec import Slice
    out = ex.sl_list(st, a[1]) + enc_terms(_enc(a), ex.sl_list(st, a[2]))
    return Slice(ex.new(st, tuple(out), "ae"), (), 0, len(out), len(out))


_SRC = {}


def decvar(kind, src, what, n):
    """decoding src as kind has this outcome"""
    i = _SRC.setdefault((kind, tuple(x.id for x in src)), len(_SRC))
    return tm.var("dec%d_%s_%d_%s%d" % (i, kind, len(src), what, n), BOOL)


def _decode(ex, st, kind, dst, src, maxn, exact, tostring=False):
    """forks: failure, or success with each possible number of bytes"""
    from .exec import PanicPath, Slice, Opaque
    src = tuple(src)
    cap = dst.len if dst is not None else 0
    key = (kind, src)
    out = []
    known = st.ghost.get(("dec", key))
    opts = [known] if known else [("ok", n) for n in ([maxn] if exact else range(maxn, -1, -1))] + [("err", 0)]
    for what, n in opts:
        s2 = st.fork()
        if not known:
            s2.guard = s2.guard + (decvar(kind, src, what, n),)
            s2.ghost[("dec", key)] = (what, n)
        if what == "ok":
            vals = dec_terms(kind, src, n)
            if tostring:
                o = ex.new(s2, vals, "dec")
                out.append((s2, (Slice(o, (), 0, n, n), None)))
                continue
            if n > cap:
                ex.panics.append((s2.g(), "decoding %d bytes into %d" % (n, cap), kind))
                continue
            if n:
                ex.sl_write(s2, dst, vals)
            out.append((s2, (tm.const(n, I64), None)))
        else:
            if maxn > cap and not tostring:
                # a long prefix may decode before the error shows
                ex.panics.append((s2.g(), "decoding %d bytes into %d" % (maxn, cap), kind))
            k = min(cap, maxn)
            if tostring:
                out.append((s2, (None, ("iface", "error", Opaque("error")))))
                continue
            junk = [tm.mk("uf", ("junk", kind, i) + src, U8) for i in range(k)]
            if k:
                ex.sl_write(s2, dst, junk)
            nn = tm.var("decn_%s_%d" % (kind, len(src)), I64)
            out.append((s2, (nn, ("iface", "error", Opaque("error")))))
    return out


def dec_terms(kind, src, n):
    return tuple(tm.mk("uf", ("dec", kind, n, i) + tuple(src), U8) for i in range(n))


def b64_decode(ex, st, a, ins):
    k = _enc(a)
    src = ex.sl_list(st, a[2])
    return _decode(ex, st, k, a[1], src, b64declen(k, len(src)), False)


def b64_decodestring(ex, st, a, ins):
    k = _enc(a)
    src = _strterms(a[1])
    return _decode(ex, st, k, None, src, b64declen(k, len(src)), False, True)


def _strterms(s):
    return [tm.const(c, U8) if isinstance(c, int) else c for c in s[1]]


def hex_decode(ex, st, a, ins):
    src = ex.sl_list(st, a[1])
    return _decode(ex, st, "hex", a[0], src, len(src) // 2, True)


def hex_decodestring(ex, st, a, ins):
    src = _strterms(a[0])
    return _decode(ex, st, "hex", None, src, len(src) // 2, True, True)


def hex_declen(ex, st, a, ins):
    return tm.const(tm.cv(a[0]) // 2, I64)


# ---- encoding/binary --------------------------------------------------------------

def _le_get(n):
    def f(ex, st, a, ins):
        from .exec import PanicPath
        b = ex.sl_list(st, a[-1])
        if len(b) < n:
            raise PanicPath("index out of range")
        ty = (8 * n, False)
        r = tm.conv(b[0], ty)
        for i in range(1, n):
            r = tm.binop("or", r, tm.shift("shl", tm.conv(b[i], ty), tm.const(8 * i, U64)))
        return r
    return f


def _le_put(n):
    def f(ex, st, a, ins):
        from .exec import PanicPath
        if (a[-2].len if a[-2] is not None else 0) < n:
            raise PanicPath("index out of range")
        ex.sl_write(st, a[-2], [tm.conv(tm.shift("shr", a[-1], tm.const(8 * i, U64)), U8) for i in range(n)])
        return None
    return f


MODELS = {
    "(*math/big.Int).SetString": big_setstring, "(*math/big.Int).SetBytes": big_setbytes, "(*math/big.Int).SetInt64": big_setint,
    "(*math/big.Int).SetUint64": big_setint, "(*math/big.Int).Set": big_set, "math/big.NewInt": big_newint,
    "(*math/big.Int).Mod": big_mod, "(*math/big.Int).Rem": big_rem, "(*math/big.Int).Bytes": big_bytes, "(*math/big.Int).FillBytes": big_fillbytes,
    "(*math/big.Int).Add": big_arith(lambda x, y: x + y), "(*math/big.Int).Sub": big_arith(lambda x, y: x - y),
    "(*math/big.Int).Mul": big_arith(lambda x, y: x * y), "(*math/big.Int).Lsh": big_lsh,
    "(*encoding/base64.Encoding).EncodedLen": b64_encodedlen, "(*encoding/base64.Encoding).DecodedLen": b64_decodedlen,
    "(*encoding/base64.Encoding).Encode": b64_encode, "(*encoding/base64.Encoding).Decode": b64_decode,
    "(*encoding/base64.Encoding).EncodeToString": b64_encodetostring, "(*encoding/base64.Encoding).DecodeString": b64_decodestring,
    "(*encoding/base64.Encoding).AppendEncode": b64_appendencode,
    "encoding/hex.Decode": hex_decode, "encoding/hex.DecodeString": hex_decodestring, "encoding/hex.DecodedLen": hex_declen,
    "(encoding/binary.littleEndian).Uint64": _le_get(8), "(encoding/binary.littleEndian).Uint32": _le_get(4),
    "(encoding/binary.littleEndian).Uint16": _le_get(2),
    "(encoding/binary.littleEndian).PutUint64": _le_put(8), "(encoding/binary.littleEndian).PutUint32": _le_put(4),
    "(encoding/binary.littleEndian).PutUint16": _le_put(2),
    "math/bits.Mul64": mul64, "math/bits.Add64": add64, "math/bits.Sub64": sub64,
    "math/bits.Mul": mul64, "math/bits.Add": add64, "math/bits.Sub": sub64,
    "math/bits.Mul32": mul64, "math/bits.Add32": add64, "math/bits.Sub32": sub64,
    "crypto/subtle.ConstantTimeCompare": ct_compare,
    "crypto/subtle.ConstantTimeCopy": ct_copy,
    "crypto/subtle.ConstantTimeSelect": ct_select,
    "crypto/subtle.ConstantTimeByteEq": ct_eq,
    "crypto/subtle.ConstantTimeEq": ct_eq,
    "crypto/subtle.ConstantTimeLessOrEq": ct_le,
    "bytes.Equal": bytes_equal,
    "errors.New": error, "fmt.Errorf": error,
    "crypto/sha512.Sum512": hash_model("sha512", 64),
    "crypto/sha256.Sum256": hash_model("sha256", 32),
    "crypto/sha512.New": hash_new("sha512", 64), "crypto/sha256.New": hash_new("sha256", 32),
    "crypto/rand.Read": rand_read, "io.ReadFull": io_readfull,
}
