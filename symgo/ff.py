"""Field terms over GF(2^255-19) and the prover for them (z3, theory QF_FF).

A field term is a hash-consed terms.T of type FTY: fc (constant), fv (variable),
fadd, fsub, fmul, fneg, fite (condition: a boolean term), fb (value of 32 bytes), isq (inverse square root).
Boolean atoms over them: fz (is zero), fsg (is negative, i.e. odd), fsq (is a non-zero square).
"""
import re
import subprocess
import time
from . import terms as tm
from . import solve
from .terms import T, BOOL, TRUE, FALSE

P = 2**255 - 19
FTY = (-1, False)
LOW = 1


def fc(v):
    return tm.mk("fc", (v % P,), FTY)


ZERO, ONE = fc(0), fc(1)


def fv(name):
    return tm.mk("fv", (name,), FTY)


def isfc(t):
    return t.op == "fc"


def fadd(a, b):
    if isfc(a) and isfc(b):
        return fc(a.args[0] + b.args[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.id > b.id:
        a, b = b, a
    return tm.mk("fadd", (a, b), FTY)


def fneg(a):
    if isfc(a):
        return fc(-a.args[0])
    if a.op == "fneg":
        return a.args[0]
    return tm.mk("fneg", (a,), FTY)


def fsub(a, b):
    if isfc(a) and isfc(b):
        return fc(a.args[0] - b.args[0])
    if b is ZERO:
        return a
    if a is ZERO:
        return fneg(b)
    if a is b:
        return ZERO
    return tm.mk("fsub", (a, b), FTY)


def fmul(a, b):
    if isfc(a) and isfc(b):
        return fc(a.args[0] * b.args[0])
    for x, y in ((a, b), (b, a)):
        if x is ZERO:
            return ZERO
        if x is ONE:
            return y
    if a.id > b.id:
        a, b = b, a
    return tm.mk("fmul", (a, b), FTY)


def fmuls(*xs):
    r = ONE
    for x in xs:
        r = fmul(r, x)
    return r


def fadds(*xs):
    r = ZERO
    for x in xs:
        r = fadd(r, x)
    return r


def fsqr(a):
    return fmul(a, a)


def fk(k, a):
    return fmul(fc(k), a)


def fite(c, a, b):
    if c.op == "c":
        return a if c.args[0] else b
    if a is b:
        return a
    if c.op == "bnot":
        c, a, b = c.args[0], b, a
    if a.op == "fite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "fite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return tm.mk("fite", (c, a, b), FTY)


def fz(a):
    if isfc(a):
        return tm.boolc(a.args[0] == 0)
    if a.op == "fneg":
        return fz(a.args[0])
    if a.op == "fsub" and a.args[0].id > a.args[1].id:
        a = fsub(a.args[1], a.args[0])
    return tm.mk("fz", (a,), BOOL)


def fsg(a):
    if isfc(a):
        return tm.boolc(a.args[0] & 1)
    return tm.mk("fsg", (a,), BOOL)


def fsq(a):
    if isfc(a):
        return tm.boolc(a.args[0] != 0 and pow(a.args[0], (P - 1) // 2, P) == 1)
    return tm.mk("fsq", (a,), BOOL)


def frebuild(u, a):
    if u.op == "fadd":
        return fadd(*a)
    if u.op == "fsub":
        return fsub(*a)
    if u.op == "fmul":
        return fmul(*a)
    if u.op == "fneg":
        return fneg(*a)
    if u.op == "fite":
        return fite(*a)
    if u.op == "fz":
        return fz(*a)
    if u.op == "fsg":
        return fsg(*a)
    if u.op == "fsq":
        return fsq(*a)
    return tm.rebuild(u, a)


def fsubst(ts, env):
    """substitution of terms for terms (any kind)"""
    memo = {}
    for u in tm.subterms(list(ts)):
        if u in env:
            memo[u.id] = env[u]
        elif not any(isinstance(x, T) for x in u.args):
            memo[u.id] = u
        else:
            a = [memo[x.id] if isinstance(x, T) else x for x in u.args]
            memo[u.id] = u if all(x is y for x, y in zip(a, u.args)) else frebuild(u, a)
    return [memo[t.id] for t in ts]


def feval(ts, env):
    """values of field/boolean terms; env: fv/other atoms -> int"""
    memo = {}
    for u in tm.subterms(list(ts)):
        if u in env:
            memo[u.id] = env[u]
            continue
        v = [memo[x.id] if isinstance(x, T) else x for x in u.args]
        op = u.op
        if op == "fc":
            r = u.args[0]
        elif op in ("fv", "rt", "wit", "var", "fb", "root"):
            raise KeyError(u)
        elif op == "fadd":
            r = (v[0] + v[1]) % P
        elif op == "fsub":
            r = (v[0] - v[1]) % P
        elif op == "fmul":
            r = v[0] * v[1] % P
        elif op == "fneg":
            r = -v[0] % P
        elif op == "fite":
            r = v[1] if v[0] else v[2]
        elif op == "fz":
            r = v[0] == 0
        elif op == "fsg":
            r = bool(v[0] & 1)
        elif op == "fsq":
            r = v[0] != 0 and pow(v[0], (P - 1) // 2, P) == 1
        elif op == "c":
            r = u.args[0]
        elif op == "fby":
            r = (v[0] >> (8 * v[1])) & 255
        elif op == "fl":
            raise KeyError(u)
        else:
            r = tm.apply(u, v)
        memo[u.id] = r
    return [memo[t.id] for t in ts]


class Query:
    """conjunction of field literals given to z3"""

    def __init__(self):
        self.names = {}
        self.lines = []
        self.vars = {}

    def t(self, x):
        for u in tm.subterms([x]):
            if u.id in self.names:
                continue
            if u.op == "fc":
                v = u.args[0]
                n = "(as ff%d F)" % v
            elif u.op in ("fadd", "fsub", "fmul", "fneg"):
                a = [self.names[y.id] for y in u.args]
                if u.op == "fsub":
                    e = "(ff.add %s (ff.neg %s))" % tuple(a)
                else:
                    e = "(ff.%s %s)" % (u.op[1:], " ".join(a))
                n = "n%d" % u.id
                self.lines.append("(define-fun %s () F %s)" % (n, e))
            elif u.op in ("fite",):
                raise ValueError("unresolved conditional")
            elif u.ty == FTY:
                n = "v%d" % u.id
                self.vars[n] = u
                self.lines.append("(declare-fun %s () F)" % n)
            else:
                n = "?"
            self.names[u.id] = n
        return self.names[x.id]

    def eq(self, a, b=ZERO):
        self.lines.append("(assert (= %s %s))" % (self.t(a), self.t(b)))

    def ne(self, a, b=ZERO):
        self.lines.append("(assert (not (= %s %s)))" % (self.t(a), self.t(b)))

    def check(self, timeout=20, model=False):
        text = "(set-logic QF_FF)\n(define-sort F () (_ FiniteField %d))\n%s\n(check-sat)\n%s" % (P, "\n".join(self.lines), "(get-model)\n" if model else "")
        t = time.time()
        try:
            r = subprocess.run(["z3-new", "-in", "-T:%d" % max(1, int(timeout))], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 5)
            out = r.stdout.decode()
        except subprocess.TimeoutExpired:
            out = "timeout"
        res = out.split("\n", 1)[0].strip()
        if res not in ("sat", "unsat"):
            res = "unknown"
        solve.STATS.add(res, time.time() - t, "FF")
        self.out = out
        return res


class Ctx:
    """hypotheses at a leaf of the case analysis"""

    def __init__(self, eqs=(), nes=(), signs=()):
        self.eqs, self.nes, self.signs = list(eqs), list(nes), list(signs)   # signs: (term, True/False)
        self._inc = None
        self.timeout = 20
        self.memo = {}
        self.roots = []      # (radicand, case, kind, value) of the roots processed so far
        self.smp = []        # concrete assignments satisfying the hypotheses: they only save queries that would be sat

    def copy(self):
        c = Ctx(self.eqs, self.nes, self.signs)
        c.timeout = self.timeout
        c.smp = list(self.smp)
        c.roots = self.roots
        return c

    def holds(self, env):
        """does the assignment satisfy all hypotheses?"""
        try:
            v = feval(self.eqs + self.nes + [t for t, _ in self.signs], env)
        except KeyError:
            return False
        n, m = len(self.eqs), len(self.nes)
        return not any(v[:n]) and all(v[n:n + m]) and all(bool(x & 1) == s for x, (_, s) in zip(v[n + m:], self.signs))

    def refilter(self):
        self.smp = [e for e in self.smp if self.holds(e)]
        self._inc = None
        self.memo = {}
        return self

    def sampled(self, a, f):
        for e in self.smp:
            try:
                if f(feval([a], e)[0]):
                    return True
            except KeyError:
                pass
        return False

    def q(self):
        Q = Query()
        for a in self.eqs:
            Q.eq(a)
        for a in self.nes:
            Q.ne(a)
        return Q

    def zero(self, a):
        """do the hypotheses entail a = 0?"""
        if a.op == "fc":
            if a.args[0] == 0:
                return True
        if a in self.memo:
            return self.memo[a]
        if self.sampled(a, lambda v: v != 0):
            self.memo[a] = False
            return False
        Q = self.q()
        Q.ne(a)
        r = Q.check(self.timeout) == "unsat"
        self.memo[a] = r
        return r

    def nonzero(self, a):
        if a.op == "fc":
            if a.args[0]:
                return True
        if self.sampled(a, lambda v: v == 0):
            return False
        Q = self.q()
        Q.eq(a)
        return Q.check(self.timeout) == "unsat"

    def model(self, extra=None, timeout=10):
        """an assignment satisfying the hypotheses (signs are not part of the query) or None"""
        Q = self.q()
        if extra:
            extra(Q)
        if Q.check(timeout, True) != "sat":
            return None
        out = {}
        for m in re.finditer(r"\(define-fun (\w+) \(\) \S+\s*\(as ff(\d+)", Q.out):
            if m.group(1) in Q.vars:
                out[Q.vars[m.group(1)]] = int(m.group(2))
        return out

    def entail(self, mk):
        """mk(Q) adds the negated goal"""
        Q = self.q()
        mk(Q)
        return Q.check(self.timeout) == "unsat"

    def inconsistent(self):
        if self.smp:
            return False
        if self._inc is None:
            self._inc = self.q().check(self.timeout) == "unsat"
        return self._inc

    def contradictory_signs(self):
        """a negative element is non-zero; equal elements have equal signs, opposite ones opposite signs unless 0"""
        S = self.signs
        if self.smp:
            return False
        for i, (a, s) in enumerate(S):
            for b, t in S[:i]:
                if s != t and self.zero(fsub(a, b)):
                    return True
                if s and t and self.zero(fadd(a, b)):
                    return True
                if not s and not t and self.zero(fadd(a, b)):
                    # both non-negative and opposite: both 0
                    self.eqs.append(a)
                    self.memo = {}
                    if self.q().check(self.timeout) == "unsat":
                        return True
        return False

    def sign(self, a, s):
        """do the hypotheses entail sign(a) = s?"""
        if a.op == "fc":
            return bool(a.args[0] & 1) == s
        if not s and self.zero(a):
            return True
        for b, t in self.signs:
            if t == s and self.zero(fsub(a, b)):
                return True
            if t != s and self.zero(fadd(a, b)):
                if s or t:       # b negative, hence non-zero: a = -b is not; or b non-negative and a non-zero
                    if t or self.nonzero(a):
                        return True
        return False
