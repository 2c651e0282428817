"""Messages that decide the conditions the code puts on hash, random or message bytes."""
import hashlib
import time
from symgo import terms as tm
from symgo import solve


def decisions(ts):
    """boolean subterms that depend on byte variables and hash bytes only"""
    info, out = {}, []
    for u in tm.subterms([t for t in ts if isinstance(t, tm.T)]):
        if u.op == "hash":
            k = frozenset(["hash"])
        elif u.op == "v":
            k = frozenset(["var"]) if u.ty == (8, False) else None
        elif u.op == "c":
            k = frozenset()
        else:
            k = frozenset()
            for a in u.args:
                if isinstance(a, tm.T):
                    k = None if k is None or info[a.id] is None else k | info[a.id]
            if u.op[0] == "f" or u.op == "uf":
                k = None
        info[u.id] = k
        if k and u.ty == tm.BOOL and u.op in ("eq", "lt", "le", "band", "bor"):
            out.append((u, k))
    return out


def code(conds, src):
    """python function (h, m) -> values of the conditions"""
    names, lines = {}, []
    for u in tm.subterms(conds):
        if u.op == "c":
            names[u.id] = repr(u.args[0])
            continue
        if u in src:
            names[u.id] = src[u]
            continue
        v = [names[a.id] if isinstance(a, tm.T) else a for a in u.args]
        op = u.op
        if op == "eq":
            e = "%s == %s" % tuple(v)
        elif op in ("lt", "le"):
            e = "%s %s %s" % (v[0], "<" if op == "lt" else "<=", v[1])
        elif op == "bnot":
            e = "not " + v[0]
        elif op in ("band", "bor"):
            e = (" and " if op == "band" else " or ").join(v)
        elif op in ("and", "or", "xor") and not u.ty[1]:
            e = "%s %s %s" % (v[0], {"and": "&", "or": "|", "xor": "^"}[op], v[1])
        else:
            names["A%d" % u.id] = u
            e = "A(U%d, [%s])" % (u.id, ", ".join(v))
        names[u.id] = "t%d" % u.id
        lines.append("    t%d = %s" % (u.id, e))
    env = {"A": tm.apply}
    env.update({"U%d" % u.id: u for k, u in names.items() if isinstance(k, str)})
    exec("def f(h, m):\n%s\n    return (%s,)" % ("\n".join(lines) or "    pass", ", ".join(names[c.id] for c in conds)), env)
    return env["f"]


def search(ts, kind, m, limit=20, most=1 << 20):
    """concrete messages (values of the byte variables m) for both outcomes of every decision in ts"""
    ds = decisions(ts)
    out, want = [], []
    for c, k in ds[:60]:
        if "hash" in k:
            want.append(c)
        else:
            for g in (c, tm.bnot(c)):
                s, env = solve.prove_bv(g, timeout=5)
                if s == "failed" and env is not None:
                    out.append({x: env.get(x, 0) for x in m})
    if want and m:
        src = {x: "m[%d]" % i for i, x in enumerate(m)}
        for u in tm.subterms(want):
            if u.op == "hash":
                if u.args[0] != kind or u.args[2:] != tuple(m):
                    return out
                src[u] = "h[%d]" % u.args[1]
        try:
            f = code(want, src)
        except KeyError:
            return out
        H = getattr(hashlib, kind)
        seen, t0 = {}, time.time()
        n = len(m)
        for i in range(min(most, 256 ** min(n, 4))):
            b = (i & 0xffffffff).to_bytes(4, "little")[:n].ljust(n, b"\x5a")
            r = f(H(b).digest(), b)
            if r not in seen:
                seen[r] = b
                out.append(dict(zip(m, b)))
                if len(seen) > 40:
                    break
            if not i & 1023 and time.time() - t0 > limit:
                break
    return out
