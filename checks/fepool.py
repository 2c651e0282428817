"""Concrete programs on field elements (replayed on the real code)."""
from .fields import *

OPS2 = {"Add": "add", "Sub": "sub", "Mul": "mul", "add": "add", "sub": "sub"}
OPS1 = {"Neg": "neg", "Square": "sqr", "DoubledSquare": "dsqr", "double": "dbl"}


def extremes(B, r):
    """values whose carried limbs are extreme"""
    out = []
    n = B.n
    if B.ty[1]:
        hi = [(1 << (25 if i % 2 == 0 else 24)) - 1 for i in range(n)]
        pats = [[1] * n, [-1] * n, [1 if i % 2 else -1 for i in range(n)], [-1 if i % 2 else 1 for i in range(n)]]
        pats += [[r.choice((-1, 1)) for _ in range(n)] for _ in range(4)]
        for pt in pats:
            out.append(sum(h * s << w for h, s, w in zip(hi, pt, B.W)) % ref.p)
    else:
        full = [(1 << 51) - 1] * n
        out += [ref.p - 1, ref.p - 2, ref.p - 19, 2**255 - 20]
        for i in range(n):
            x = list(full)
            x[i] = 0
            out.append(sum(a << w for a, w in zip(x, B.W)) % ref.p)
            x = [0] * n
            x[i] = (1 << 51) - 1
            out.append(sum(a << w for a, w in zip(x, B.W)) % ref.p)
    return out


FORMS = {  # name -> (number of values, steps on x with values in m0, m1; value)
    "s": lambda v: v[0], "m": lambda v: v[0], "n": lambda v: -v[0], "2m": lambda v: 2 * v[0], "m+m": lambda v: v[0] + v[1],
    "m-m": lambda v: v[0] - v[1], "2m+m": lambda v: 2 * v[0] + v[1], "2m-m": lambda v: 2 * v[0] - v[1], "m-2m": lambda v: v[0] - 2 * v[1]}


def form_steps(f, x, a, b):
    """driver steps that leave a value of the given form in x; a, b hold SetBytes values"""
    one = "one"
    st = []
    if f == "s":
        return [{"m": "FE.Set", "a": [x, a]}]
    st.append({"m": "FE.Mul", "a": [x + "a", a, one]})
    st.append({"m": "FE.Mul", "a": [x + "b", b, one]})
    if f == "m":
        st.append({"m": "FE.Set", "a": [x, x + "a"]})
    elif f == "n":
        st.append({"m": "FE.Neg", "a": [x, x + "a"]})
    elif f == "2m":
        st.append({"m": "FE.add", "a": [x, x + "a", x + "a"]})
    elif f == "m+m":
        st.append({"m": "FE.add", "a": [x, x + "a", x + "b"]})
    elif f == "m-m":
        st.append({"m": "FE.sub", "a": [x, x + "a", x + "b"]})
    elif f in ("2m+m", "2m-m"):
        st.append({"m": "FE.add", "a": [x, x + "a", x + "a"]})
        st.append({"m": "FE.add" if f == "2m+m" else "FE.sub", "a": [x, x, x + "b"]})
    elif f == "m-2m":
        st.append({"m": "FE.add", "a": [x, x + "b", x + "b"]})
        st.append({"m": "FE.sub", "a": [x, x + "a", x]})
    return st


def prep(B, names, vals, forms):
    """vars and steps computing the named operands; vals[i] is a pair"""
    vs = [["one", "FE", ["0"] * B.n]]
    st = [{"m": "FE.SetOne", "a": ["one"]}]
    for nm, v, f in zip(names, vals, forms):
        for sfx in ("", "a", "b", "p", "q"):
            vs.append([nm + sfx, "FE", ["0"] * B.n])
        vs += [[nm + "B0", "b32", ref.b32(v[0]).hex()], [nm + "B1", "b32", ref.b32(v[1]).hex()]]
        st += [{"m": "FE.SetBytes", "a": [nm + "p", nm + "B0"]}, {"m": "FE.SetBytes", "a": [nm + "q", nm + "B1"]}]
        st += form_steps(f, nm, nm + "p", nm + "q")
    return vs, st


def used(ctx, tag):
    A = ctx.cache.get("box", {}).get(tag)
    if not isinstance(A, dict):
        return None
    d = {}
    for n, bx, w in A["req"]:
        d.setdefault(n.rsplit(".", 1)[-1], []).append(bx)
    return d


def arith(ctx):
    out = []
    for tag in ctx.progs:
        B = Backend(ctx, tag)
        drv = ctx.drivers[tag]
        r = rng(ctx, "fp" + tag)
        vals = extremes(B, r) + edge_fes(ctx, 4)
        req = used(ctx, tag)
        cand = []
        for op, s in list(OPS2.items()) + list(OPS1.items()):
            if FE(op) not in B.p.funcs:
                continue
            ar = 2 if op in OPS2 else 1
            for forms in itertools.product(FORMS, repeat=ar):
                for _ in range(6 if ar == 2 else 20):
                    vv = [(r.choice(vals), r.choice(vals)) for _ in range(ar)]
                    cand.append((op, s, forms, vv))
                    if r.random() < 0.3:
                        cand.append((op, s, forms, [(vals[0], vals[1] if len(forms) > 1 else vals[0])] * ar))
            for v in vals:
                cand.append((op, s, ("s",) * ar, [(v, 0)] * ar))
                cand.append((op, s, ("s",) * ar, [(v, 0)] + [(r.choice(vals), 0)] * (ar - 1)))
        # which operands does the library itself produce?
        progs, recs = [], []
        for op, s, forms, vv in cand:
            names = ["x", "y"][:len(forms)]
            vs, st = prep(B, names, vv, forms)
            progs.append({"vars": vs, "steps": st, "out": names})
        res = drv.run(progs)
        for (op, s, forms, vv), pr, rs in zip(cand, progs, res):
            if "out" not in rs:
                continue
            names = pr["out"]
            limbs = [[int(t) for t in rs["out"][nm]] for nm in names]
            if set(forms) != {"s"} and op not in ("Add", "Sub"):
                ok = req is not None and any(all(all(lo <= t <= hi for t, (lo, hi) in zip(l, b)) for l, b in zip(limbs, bx)) for bx in req.get(op, []))
                if not ok:
                    continue
            elif set(forms) - {"s", "m", "n"} and op in ("Add", "Sub"):
                continue
            x = [FORMS[f](v) for f, v in zip(forms, vv)]
            want = ARITH[s](*x) % ref.p
            exp = {"r": ["fe", str(want)]}
            for nm, l in zip(names, limbs):
                exp[nm] = ["raw", [str(t) for t in l]]
            out.append({"tags": [tag], "prog": {"vars": pr["vars"] + [["r", "FE", ["7"] * B.n]], "steps": pr["steps"] + [{"m": "FE." + op, "a": ["r"] + names}],
                                                "out": ["r"] + names}, "expect": exp, "note": "FieldElement.%s on forms %s of %s" % (op, forms, vv)})
    return out


CHAINS = {  # repeated step on (a, x), its effect on the value of a
    "Add(a, x)": ("Add", ["a", "a", "x"], lambda a, x: a + x), "Add(x, a)": ("Add", ["a", "x", "a"], lambda a, x: a + x), "Add(a, a)": ("Add", ["a", "a", "a"], lambda a, x: 2 * a),
    "Sub(a, x)": ("Sub", ["a", "a", "x"], lambda a, x: a - x), "Sub(x, a)": ("Sub", ["a", "x", "a"], lambda a, x: x - a), "Neg(a)": ("Neg", ["a", "a"], lambda a, x: -a),
    "Sub(a, a)": ("Sub", ["a", "a", "a"], lambda a, x: 0)}


def chains(ctx):
    """long chains of exported operations followed by each operation: limbs that grow from step to step overflow in the end"""
    out = []
    for tag in ctx.progs:
        B = Backend(ctx, tag)
        r = rng(ctx, "chain" + tag)
        vals = [ref.p - 1, 1, 2**255 - 20, extremes(B, r)[0], r.randrange(ref.p)]
        for nm, (m, args, f) in CHAINS.items():
            for n in (3, 9, 17, 40, 129, 600, 2100, 5000):
                for a0, x in [(r.choice(vals), r.choice(vals)) for _ in range(3)]:
                    vs = [["a", "FE", ["0"] * B.n], ["x", "FE", ["0"] * B.n], ["b", "b32", ref.b32(a0).hex()], ["c", "b32", ref.b32(x).hex()]]
                    vs += [[k, "FE", ["0"] * B.n] for k in ("m", "q", "d", "s", "t", "u")] + [["o", "b32", "00" * 32]]
                    st = [{"m": "FE.SetBytes", "a": ["a", "b"]}, {"m": "FE.SetBytes", "a": ["x", "c"]}, {"m": "FE." + m, "a": args, "n": n},
                          {"m": "FE.Mul", "a": ["m", "a", "a"]}, {"m": "FE.Square", "a": ["q", "a"]}, {"m": "FE.Add", "a": ["s", "a", "x"]}, {"m": "FE.Sub", "a": ["t", "x", "a"]},
                          {"m": "FE.Neg", "a": ["u", "a"]}, {"m": "FE.BytesInto", "a": ["a", "o"]}]
                    v = a0
                    for _ in range(n):
                        v = f(v, x) % ref.p
                    fe = lambda v: ["fe", str(v % ref.p)]
                    exp = {"a": fe(v), "m": fe(v * v), "q": fe(v * v), "s": fe(v + x), "t": fe(x - v), "u": fe(-v), "o": ["hex", ref.b32(v).hex()]}
                    out.append({"tags": [tag], "prog": {"vars": vs, "steps": st, "out": list(exp)}, "expect": exp, "note": "FieldElement: %d times %s from a=%d, x=%d" % (n, nm, a0, x)})
    return out
