"""C18: random scalars and points."""
from . import msgs
from .c13 import *
from . import scal

BOUNDS = "every value of the bytes of the random source, every point at which the source fails, histories of three (quick) or five (thorough) consecutive calls (Scalar and Point interleaved in every order)"
EXPLAIN = ("Scalar.Rand and Point.Rand are executed in sequence on one program state with the random source as symbolic bytes that are handed out once; the solver shows that the n-th result is the reduction (Elligator image) "
           "of the bytes the n-th call obtained, and that a call whose source fails does not return.")
ASSUME = ["Scalar.SetReduced and Point.SetElligator are right (C05, C13)", "crypto/rand.Read fills the buffer or reports an error (it never returns short without one)"]
SIZE = {"S": 64, "P": 32}


def goal_seq(ctx, tag, seq):
    B = Backend(ctx, tag)
    R = fev.FRun(B, 3)
    E = fev.FRun(B, 3)
    off, fns = 0, set()
    for j, k in enumerate(seq):
        n = S("Rand") if k == "S" else PT("Rand")
        if n not in B.p.funcs:
            return unknown("no such method")
        old = limbvars("o%d" % j, 8, U32) if k == "S" else None
        mk = lambda X, nm: X.obj(nm + "%d" % j, old if k == "S" else X.struct(*[fv("old%d_%d" % (j, i)) for i in range(4)]))
        a = mk(R, "a")
        np = len(R.ex.panics)
        R.st, ret = R.ex.call1(R.st, n, [a])
        fns |= set(fnames(R.ex)) | set(R.used)
        if ret != a:
            return unknown("result pointer", functions=sorted(fns))
        hb = [tm.var("rand_%d" % (off + i), U8) for i in range(SIZE[k])]
        ok = tm.var("rand_ok_%d" % off, BOOL)
        cs = lambda ts: inputs_seq(B, tag, seq, ts)
        pg = [g for g, _, _ in R.ex.panics[np:]]
        used = R.st.ghost.get("#rand", 0)
        if used != off + SIZE[k]:
            return dict(status="unknown", detail="call %d of %s obtains %s bytes of the random source" % (j, seq, used - off), functions=sorted(fns), cases=cs(pg) + [case_fail(B, tag, seq[:j + 1])])
        # it does not return when the source fails, and returns when it does not
        if solve.prove_bv(tm.bor(ok, *[g for g, _, _ in R.ex.panics]))[0] != "proved":
            return dict(status="unknown", detail="call %d returns although the random source fails" % j, functions=sorted(fns), cases=[case_fail(B, tag, seq[:j + 1])])
        if any(solve.prove_bv(tm.bnot(tm.band(g, ok)))[0] != "proved" for g in pg):
            return dict(status="unknown", detail="call %d panics although the random source works" % j, functions=sorted(fns), cases=cs(pg))
        b = mk(E, "b")
        E.st, _ = E.ex.call1(E.st, S("SetReduced") if k == "S" else PT("SetElligator"), [b, E.obj("h%d" % j, tuple(hb))])
        val, want = (R.ex.load(R.st, a), E.ex.load(E.st, b)) if k == "S" else (R.vals(R.st, a), E.vals(E.st, b))
        if val != want:
            return dict(status="unknown", detail="call %d of %s differs from the image of its random bytes" % (j, seq), functions=sorted(fns), cases=cs(list(val)))
        off += SIZE[k]
    return proved("identical terms", functions=sorted(fns), sub=3 * len(seq))


def inputs_seq(B, tag, seq, ts):
    m = [tm.var("rand_%d" % i, U8) for i in range(96 * len(seq))]
    return [case_seq(B, tag, seq, bytes(e[x] for x in m)) for e in msgs.search(ts, None, m)]


def want(k, b):
    return ["sc", str(int.from_bytes(b, "little") % ref.l)] if k == "S" else pt(ref.elligator(b))


def case_seq(B, tag, seq, data):
    vs, st, exp, off = [["seed", "bytes", data.hex()]], [{"m": "drv.rand", "a": ["seed"]}], {}, 0
    data = data + bytes(1024)
    for j, k in enumerate(seq):
        vs.append(["x%d" % j, k, limbs32(77 + j) if k == "S" else junk(B)])
        st.append({"m": k + ".Rand", "a": ["x%d" % j]})
        exp["x%d" % j] = want(k, data[off:off + SIZE[k]])
        off += SIZE[k]
    return {"tags": [tag], "prog": {"vars": vs, "steps": st, "out": list(exp)}, "expect": exp, "note": "%s with random bytes %s" % (", ".join(k + ".Rand" for k in seq), data[:off].hex())}


def case_fail(B, tag, seq, cut=1):
    """the source ends within the last call"""
    n = sum(SIZE[k] for k in seq)
    c = case_seq(B, tag, seq, bytes((37 * i + 11) & 255 for i in range(n)))
    c["prog"]["vars"][0][2] = c["prog"]["vars"][0][2][:2 * (n - cut)]
    c["prog"]["steps"][0]["m"] = "drv.randfail"
    c["dies"], c["expect"] = True, {}
    c["note"] = "%s with a random source that fails %d bytes before the end" % (", ".join(k + ".Rand" for k in seq), cut)
    return c


def goals(ctx):
    out = []
    for tag in ctx.progs:
        lab = "default" if not tag else tag
        n = 3 if not ctx.thorough else 5
        for seq in itertools.product("SP", repeat=n):
            out.append(("%s[%s]" % (", ".join(seq), lab), goal_seq, dict(tag=tag, seq=list(seq))))
    return out


def pool(ctx):
    out = []
    for tag in ctx.progs:
        B = Backend(ctx, tag)
        r = rng(ctx, "c18" + tag)
        for seq in ("S", "P", "SS", "PP", "SP", "PS", "SSPP", "PSPS", "SSSSSSSS", "PPPPPPPP"):
            n = sum(SIZE[k] for k in seq)
            ds = [bytes(n), b"\xff" * n, bytes(range(256)) * 4] + [bytes(r.randrange(256) for _ in range(n)) for _ in range(6 if not ctx.thorough else 100)]
            if len(seq) == 1:
                ds += [bytes([0] * i + [v] + [0] * (n - 1 - i)) for i in range(n) for v in (1, 128)]
                if seq == "S":
                    ds += [(ref.l + e).to_bytes(64, "little") for e in (-1, 0, 1)] + [((2**512 // ref.l) * ref.l + e).to_bytes(64, "little") for e in (-1, 0, 1)]
            for d in ds:
                out.append(case_seq(B, tag, list(seq), d[:n]))
            for cut in (1, n if len(seq) == 1 else SIZE[seq[-1]], 16):
                out.append(case_fail(B, tag, list(seq), cut))
    return out
