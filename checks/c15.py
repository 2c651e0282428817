"""C15: marshalling."""
import base64
from .pts import *
from symgo import stdlib

BOUNDS = "text inputs of length 0 to 100, 128, 299, 320 (all contents); binary inputs of length 0 to 100, 128, 255 to 257, 287 to 289, 1056, 65568 (all contents); all values when marshalling"
EXPLAIN = ("The (un)marshalling methods are executed on symbolic text of every length; base64 and hexadecimal decoding are modelled by their contract (failure, or any number of bytes up to the documented maximum, "
           "writing into the destination), decoding of the 32 bytes by C11 and C05.  On every path the outcome must be the specified one, and no path may panic.")
ASSUME = ["encoding/base64 and encoding/hex follow their documentation", "decoding of 32 bytes is decided in C11 (points) and C05 (scalars)"]
ENC = "RawURLEncoding"
TXT = list(range(0, 101)) + [128, 299, 320]
BIN = list(range(0, 101)) + [128, 255, 256, 257, 287, 288, 289, 1056, 65568]


class MRun(fev.FRun):
    """FRun with the decoding and encoding of points as arbitrary functions"""

    def hooks(self):
        H = fev.FRun.hooks(self)

        def setrist(ex, st, args, ins):
            self.used.add(TN("EP", "SetRistretto"))
            b = tuple(ex.load(st, args[1]))
            out = []
            known = st.ghost.get(("rist", b))
            for ok in ((True, False) if known is None else (known,)):
                s2 = st.fork()
                if known is None:
                    v = tm.var("rist_%d" % hash_of(b), BOOL)
                    s2.guard = s2.guard + (v if ok else tm.bnot(v),)
                    s2.ghost[("rist", b)] = ok
                ex.store(s2, args[0], self.struct(*comps(b, ok)))
                out.append((s2, tm.boolc(ok)))
            return out

        def ristinto(ex, st, args, ins):
            self.used.add(TN("EP", "RistrettoInto"))
            ex.store(st, args[1], code(self.vals(st, args[0])))
            return args[0]
        H[TN("EP", "SetRistretto")] = setrist
        H[TN("EP", "RistrettoInto")] = ristinto
        return H


HS = {}


def hash_of(b):
    return HS.setdefault(tuple(x.id for x in b), len(HS))


def comps(b, ok):
    return [fv("%s%d_%d" % ("pt" if ok else "rejected", hash_of(b), j)) for j in range(4)]


def code(v):
    return tuple(tm.mk("uf", ("enc_pt", i) + tuple(v), U8) for i in range(32))


def b64opts(n):
    return [("ok", k) for k in range(stdlib.b64declen(ENC, n) + 1)] + [("err", 0)]


def decoders(kind, fmt, src):
    """(condition that src is hexadecimal, that it is base64 of 32 bytes, facts about the decoders)"""
    ax = []
    if fmt == "bin":
        return FALSE, FALSE, ax

    def opts(k, os):
        vs = [stdlib.decvar(k, src, w, n) for w, n in os]
        ax.append(tm.bor(*vs))
        # at most one of them: numbered
        x = tm.var("which_" + k, (16, False))
        ax.extend(tm.cmp("eq", tm.b2i(tm.cmp("eq", x, tm.const(i, x.ty)), U8), tm.b2i(v, U8)) for i, v in enumerate(vs))
        return dict(zip(os, vs))
    A = opts(ENC, b64opts(len(src))).get(("ok", 32), FALSE)
    H = FALSE
    if kind == "P" and len(src) == 64:
        H = opts("hex", [("ok", 32), ("err", 0)])[("ok", 32)]
        ax.append(tm.bnot(tm.band(H, A)))      # 64 hexadecimal digits are 48 bytes of base64
    return H, A, ax


def outcome(fmt, src, H, A, good):
    """condition under which a path has the specified outcome; good(bytes) is the condition for decoding these bytes, good(None) for an error"""
    if fmt == "bin":
        return good(src if len(src) == 32 else None)
    res = good(None)
    if A is not FALSE:
        res = tm.bite(A, good(tuple(stdlib.dec_terms(ENC, src, 32))), res)
    if H is not FALSE:
        res = tm.bite(H, good(tuple(stdlib.dec_terms("hex", src, 32))), res)
    return res


def goal_unmarshal(ctx, tag, kind, fmt, lens):
    B = Backend(ctx, tag)
    m = "UnmarshalBinary" if fmt == "bin" else "UnmarshalText"
    n = (PT if kind == "P" else S)(m)
    if n not in B.p.funcs:
        return unknown("no such method")
    fns, sub = set(), 0
    for ln in lens:
        R = MRun(B, 3)
        ex = R.ex
        ex.merge = False
        src = bytesvars("x", ln)
        sl = Slice(ex.new(R.st, src, "x"), (), 0, ln, ln)
        if kind == "P":
            old = R.struct(*[fv("old%d" % j) for j in range(4)])
        else:
            old = limbvars("old", 8, U32)
        r = R.obj("r", old)
        want = {}
        outs = ex.call(R.st, n, [r, sl])
        fns.update(fnames(ex))
        fns.update(R.used)
        goals = []
        H, A, ax = decoders(kind, fmt, src)
        for st, ret in outs:
            sub += 1
            if not (ret is None or isinstance(ret, tuple) and ret[0] == "iface"):
                raise Unsupported("error value")
            same = tm.boolc(ex.load(st, Ptr(sl.obj)) == src)

            def good(b):
                if b is None:
                    return tm.boolc(ret is not None)
                if kind == "P":
                    v = tm.var("rist_%d" % hash_of(b), BOOL)
                    return tm.bite(v, tm.boolc(ret is None and R.vals(st, r) == tuple(comps(b, True))), tm.boolc(ret is not None))
                if ret is not None:
                    return FALSE
                if b not in want:
                    R2 = MRun(B, 3)
                    r2, b2 = R2.obj("r", old), R2.obj("b", b)
                    s2, _ = R2.ex.call1(R2.st, S("SetBytes"), [r2, b2])
                    want[b] = R2.ex.load(s2, r2)
                return tm.band(*[tm.cmp("eq", x, y) for x, y in zip(ex.load(st, r), want[b])])
            o = outcome(fmt, src, H, A, good)
            goals.append(tm.bor(tm.bnot(st.g()), tm.band(o, same)))
        if kind == "P":
            goals += [tm.bor(tm.bnot(g), c) for g, c, _ in ex.obligations]
        goals.append(tm.bor(*[st.g() for st, _ in outs]))
        res = "proved"
        for what, g in (("outcome", tm.band(*goals)), ("panic", tm.band(*[tm.bnot(g) for g, _, _ in ex.panics])) if ex.panics else ("", TRUE)):
            if g is TRUE and not what:
                continue
            res = solve.prove_bv(g, ax, timeout=60)[0]
            if res != "proved":
                break
        if res != "proved":
            return dict(status="unknown", detail="length %d: %s %s" % (ln, what, res), functions=sorted(fns), cases=cases(ctx, B, tag, kind, fmt, inputs(ctx, kind, fmt, ln) + solved(ex, outs, src)))
    return proved(functions=sorted(fns), sub=sub)


def solved(ex, outs, src):
    """inputs for the paths, from the solver"""
    out = []
    for g in [st.g() for st, _ in outs[:60]] + [p[0] for p in ex.panics[:20]]:
        bv = solve.BV()
        s = z3.SolverFor("QF_BV")
        for x in src:
            c = bv.t(x)
            s.add(z3.Or(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), z3.And(z3.UGE(c, 97), z3.ULE(c, 102))))
        s.add(bv.t(g))
        if solve.check(s, "BV", 5) == z3.sat:
            e = solve.model_env(bv, s.model())
            out.append(bytes(e.get("x_%d" % i, 48) for i in range(len(src))))
    return out


def marshal_out(R, st, m, ret):
    """(terms, error) of a marshalling method"""
    if m == "String":
        if not isinstance(ret, tuple) or ret[0] not in ("strof", "str"):
            raise Unsupported("string value")
        return tuple(ret[1]), None
    sl, err = ret
    return tuple(R.ex.sl_list(st, sl)) if sl is not None else (), err


def goal_marshal(ctx, tag, kind, m):
    B = Backend(ctx, tag)
    n = (PT if kind == "P" else S)(m)
    if n not in B.p.funcs:
        n = n.replace("(*", "(")
    if n not in B.p.funcs:
        return unknown("no such method")
    R = MRun(B, 3)
    if kind == "P":
        v = tuple(fv("v%d" % j) for j in range(4))
        val = R.struct(*v)
        want = code(v)
    else:
        val = limbvars("v", 8, U32)
        R2 = MRun(B, 3)
        p2, b2 = R2.obj("r", val), R2.obj("b", tuple(tm.const(0, U8) for _ in range(32)))
        s2, _ = R2.ex.call1(R2.st, S("BytesInto"), [p2, b2])
        want = R2.ex.load(s2, b2)
    p = R.obj("p", val)
    st, ret = R.ex.call1(R.st, n, [p if n.startswith("(*") else val])
    fns = fnames(R.ex) + sorted(R.used)
    if R.ex.panics or R.ex.obligations:
        return unknown("panic", functions=fns)
    got, err = marshal_out(R, st, m, ret)
    if m != "MarshalBinary":
        want = tuple(stdlib.enc_terms(ENC, want))
    if err is not None or got != tuple(want) or R.ex.load(st, p) != val:
        return unknown("output", functions=fns)
    return proved(functions=fns)


def goals(ctx):
    out = []
    for tag in ctx.progs:
        lab = "default" if not tag else tag
        for k in "PS":
            for fmt, lens in (("bin", BIN), ("text", TXT)):
                for j in range(4):
                    out.append(("%s.Unmarshal %s, lengths %d mod 4[%s]" % (k, fmt, j, lab), goal_unmarshal, dict(tag=tag, kind=k, fmt=fmt, lens=lens[j::4])))
            for m in ("MarshalBinary", "MarshalText", "String"):
                out.append(("%s.%s[%s]" % (k, m, lab), goal_marshal, dict(tag=tag, kind=k, m=m)))
    return out


# ---- concrete side -------------------------------------------------------------
ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"


def b64decode(t):
    """what encoding/base64's RawURLEncoding makes of it, None for an error"""
    t = bytes(c for c in t if c not in (10, 13))
    if any(c not in ALPHA for c in t) or len(t) % 4 == 1:
        return None
    return base64.urlsafe_b64decode(t + b"=" * (-len(t) % 4))


def hexdecode(t):
    if len(t) % 2 or any(c not in b"0123456789abcdefABCDEF" for c in t):
        return None
    return bytes.fromhex(t.decode())


def target(kind, fmt, x):
    if fmt == "bin":
        return x if len(x) == 32 else None
    if kind == "P" and len(x) == 64:
        h = hexdecode(x)
        if h is not None:
            return h
    b = b64decode(x)
    return b if b is not None and len(b) == 32 else None


def b64(b):
    return base64.urlsafe_b64encode(b).rstrip(b"=")


def samples(ctx, kind):
    r = rng(ctx, "c15")
    if kind == "P":
        return [ref.encode(ref.mul(k, ref.BASE)) for k in (0, 1, 2, 5, r.randrange(ref.l))] + [b"\1" + b"\0" * 31, b"\xff" * 32]
    return [ref.b32(x) for x in (0, 1, ref.l - 1, ref.l, 2**256 - 1, 2**255 + 77, r.randrange(ref.l), r.randrange(2**256))]


def inputs(ctx, kind, fmt, n):
    r = rng(ctx, "c15in%s%s%d" % (kind, fmt, n))
    out = []
    if fmt == "bin":
        for b in samples(ctx, kind):
            out.append((b * (n // 32 + 1))[:n])
        out += [bytes(n), bytes(r.randrange(256) for _ in range(n))]
        return out
    for b in samples(ctx, kind):
        t = b64(b)
        k = n - len(t)
        if k >= 0:
            pos = r.randrange(len(t) + 1)
            out += [t + b"\n" * k, b"\r" * k + t, t[:pos] + b"\n" * k + t[pos:], t + b"=" * k, t + b"A" * k, b" " * k + t, t + b" " * k, t + b"\0" * k]
        if k < 0:
            out.append(t[:n])
        h = b.hex().encode()
        k = n - 64
        if k >= 0:
            out += [h + b"\n" * k, b"0x"[:min(2, k)] + h + b"\n" * max(0, k - 2), h.upper() + b"0" * k, h + b"=" * k]
            bad = bytearray(h + b"\n" * k)
            bad[r.randrange(64)] = ord("g")
            out.append(bytes(bad))
            bad[r.randrange(64)] = ord("-")
            out.append(bytes(bad))
        else:
            out.append(h[:n])
        # standard alphabet instead of the URL-safe one
        s = base64.b64encode(b).rstrip(b"=")
        if n >= len(s):
            out.append(s + b"\n" * (n - len(s)))
        if n == 44:
            out.append(base64.urlsafe_b64encode(b))
        if n == 43:
            for c in b"BC\n-_+/=. \0\xff":
                out.append(t[:-1] + bytes([c]))
                out.append(bytes([c]) + t[1:])
                out.append(t[:20] + bytes([c]) + t[21:])
    out += [bytes(r.choice(ALPHA) for _ in range(n)), bytes(r.randrange(256) for _ in range(n)), b"A" * n, b"\n" * n, bytes(r.choice(b"0123456789abcdefABCDEF") for _ in range(n))]
    return [x for x in out if len(x) == n]


def cases(ctx, B, tag, kind, fmt, xs):
    out, seen = [], set()
    m = "UnmarshalBinary" if fmt == "bin" else "UnmarshalText"
    for x in xs:
        if x in seen:
            continue
        seen.add(x)
        b = target(kind, fmt, x)
        exp = {"x": ["hex", x.hex()]}
        if kind == "P":
            vs = [["r", "P", ep(B, (5, 7), 3)]]
            P = ref.decode(b) if b is not None else None
            exp["e"] = ["iserr", P is None]
            if P is not None:
                exp["r"] = ["elem", [str(c) for c in P]]
        else:
            vs = [["r", "S", limbs32(12345)]]
            exp["e"] = ["iserr", b is None]
            if b is not None:
                exp["r"] = ["sc", str(int.from_bytes(b, "little") % 2**253 % ref.l)]
        vs.append(["x", "bytes", x.hex()])
        out.append({"tags": [tag], "prog": {"vars": vs, "steps": [{"m": "%s.%s" % (kind, m), "a": ["r", "x"], "r": ["e"]}], "out": list(exp)}, "expect": exp,
                    "note": "%s.%s of %r" % (kind, m, x[:120])})
    return out


def mcases(ctx, B, tag):
    out = []
    r = rng(ctx, "c15m")
    for P in sample_points(ctx, 4, even=True):
        b = ref.encode(P)
        z = r.randrange(1, ref.p)
        exp = {"a": ["hex", b.hex()], "b": ["hex", b64(b).hex()], "e1": ["iserr", False], "e2": ["iserr", False], "e3": ["iserr", False], "q": ["elem", [str(x) for x in P]],
               "w": ["elem", [str(x) for x in P]], "e4": ["iserr", False], "s": ["raw", "str:" + b64(b).decode()]}
        out.append({"tags": [tag], "prog": {"vars": [["p", "P", ep(B, P, z)], ["q", "P", ep(B, (5, 7), 3)], ["w", "P", ep(B, (5, 7), 3)]],
                                            "steps": [{"m": "P.MarshalBinary", "a": ["p"], "r": ["a", "e1"]}, {"m": "P.MarshalText", "a": ["p"], "r": ["b", "e2"]},
                                                      {"m": "P.UnmarshalText", "a": ["q", "b"], "r": ["e3"]}, {"m": "P.UnmarshalBinary", "a": ["w", "a"], "r": ["e4"]},
                                                      {"m": "P.String", "a": ["p"], "r": ["s"]}], "out": list(exp)}, "expect": exp, "note": "marshalling of %s" % (P,)})
    for v in edge_scalars(ctx, 10):
        b = ref.b32(v)
        exp = {"a": ["hex", b.hex()], "b": ["hex", b64(b).hex()], "e1": ["iserr", False], "e2": ["iserr", False], "e3": ["iserr", False], "q": ["sc", str(v)],
               "w": ["sc", str(v)], "e4": ["iserr", False], "s": ["raw", "str:" + b64(b).decode()]}
        out.append({"tags": [tag], "prog": {"vars": [["p", "S", limbs32(v)], ["q", "S", limbs32(5)], ["w", "S", limbs32(5)]],
                                            "steps": [{"m": "S.MarshalBinary", "a": ["p"], "r": ["a", "e1"]}, {"m": "S.MarshalText", "a": ["p"], "r": ["b", "e2"]},
                                                      {"m": "S.UnmarshalText", "a": ["q", "b"], "r": ["e3"]}, {"m": "S.UnmarshalBinary", "a": ["w", "a"], "r": ["e4"]},
                                                      {"m": "S.String", "a": ["p"], "r": ["s"]}], "out": list(exp)}, "expect": exp, "note": "marshalling of %d" % v})
    return out


def pool(ctx):
    out = []
    for tag in ctx.progs:
        B = Backend(ctx, tag)
        out += mcases(ctx, B, tag)
        for k in "PS":
            for ln in (0, 1, 2, 31, 32, 33, 42, 43, 44, 45, 46, 48, 63, 64, 65, 66, 86, 100):
                out += cases(ctx, B, tag, k, "text", inputs(ctx, k, "text", ln))
            for ln in (0, 1, 31, 32, 33, 43, 64, 288):
                out += cases(ctx, B, tag, k, "bin", inputs(ctx, k, "bin", ln))
    return out
