"""Normal form of scalar arithmetic: quotients of polynomials over atoms.

P = dict {monomial: Fraction}, monomial = tuple of (atom, exponent) sorted.
A quotient is kept as (num, den).  Two formulas are equal when num1*den2 and
num2*den1 have the same normal form; atoms are terms whose arguments are
themselves normalised.
"""
from fractions import Fraction

from .engine import *

ONE = {(): Fraction(1)}
FUN = {"sqrt": "sqrt", "std::sqrt": "sqrt", "ceres::sqrt": "sqrt", "atan": "atan", "std::atan": "atan", "ceres::atan": "atan",
       "fabs": "abs", "std::abs": "abs", "std::fabs": "abs", "cos": "cos", "sin": "sin", "log": "log", "exp": "exp"}
POW = ("pow", "std::pow", "ceres::pow")


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: (x[0].n, x[1])))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    # sqrt(x)^2 = x
    return fold(r)


def fold(p):
    for m in p:
        for a, e in m:
            if a.op == "fn" and a.a[0] == "sqrt" and e >= 2:
                break
        else:
            continue
        break
    else:
        return p
    r = {}
    for m, c in p.items():
        q = {(): c}
        for a, e in m:
            if a.op == "fn" and a.a[0] == "sqrt" and e >= 2:
                n, d = SQ[a]
                for _ in range(e // 2):
                    q = pmul(q, n)
                if e % 2:
                    q = pmul(q, {((a, 1),): Fraction(1)})
            else:
                q = pmul(q, {((a, e),): Fraction(1)})
        r = padd(r, q)
    return r


SQ = {}


class Quot:
    __slots__ = ("n", "d")

    def __init__(self, n, d=ONE):
        self.n, self.d = n, d

    def __add__(self, o, s=1):
        if self.d == o.d:
            return Quot(padd(self.n, o.n, s), self.d)
        return Quot(padd(pmul(self.n, o.d), pmul(o.n, self.d), s), pmul(self.d, o.d))

    def __sub__(self, o):
        return self.__add__(o, -1)

    def __mul__(self, o):
        return Quot(pmul(self.n, o.n), pmul(self.d, o.d))

    def div(self, o):
        if len(o.n) == 1 and () in o.n:      # a number
            k = o.n[()]
            return Quot({m: c / k for m, c in pmul(self.n, o.d).items()}, self.d)
        return Quot(pmul(self.n, o.d), pmul(self.d, o.n))

    def eq(self, o):
        return pmul(self.n, o.d) == pmul(o.n, self.d)

    def const(self):
        if self.d == ONE and len(self.n) <= 1 and (not self.n or () in self.n):
            return self.n.get((), Fraction(0))
        return None

    def atoms(self):
        return {a for p in (self.n, self.d) for m in p for a, _ in m}

    def show(self):
        def s(p):
            return " + ".join(str(c) + "".join("*%s^%d" % (show(a), e) if e != 1 else "*" + show(a) for a, e in m)
                              for m, c in p.items()) or "0"
        return s(self.n) if self.d == ONE else "(%s)/(%s)" % (s(self.n), s(self.d))

    def term(self):
        return mk("q", pterm(self.n), pterm(self.d))


def pterm(p):
    return mk("p", *[mk("m", C(str(c)), *[mk("e", a, e) for a, e in m])
                     for m, c in sorted(p.items(), key=lambda x: [(a.n, e) for a, e in x[0]])])


def atom(t):
    return Quot({((t, 1),): Fraction(1)})


def num(x):
    return Quot({(): Fraction(str(x)) if isinstance(x, float) else Fraction(x)}) if x else Quot({})


class Norm:
    """atoms: optional function term -> term|None giving the identity of leaves"""

    def __init__(self, leaf=None, eps=None):
        self.leaf = leaf
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.norm(t)
        return r

    def fn(self, name, q):
        c = q.const()
        if name == "sqrt" and c is not None and c >= 0:
            import math
            r = math.isqrt(c.numerator) if c.denominator == 1 else -1
            if r >= 0 and r * r == c:
                return num(r)
        key = mk("fn", name, q.term())
        if name == "sqrt":
            if q.d == ONE:
                SQ[key] = (q.n, q.d)
            else:
                return self.fn("sqrt", Quot(q.n)).div(self.fn("sqrt", Quot(q.d)))
        return atom(key)

    def norm(self, t):
        if self.leaf:
            x = self.leaf(t)
            if x is not None:
                if isinstance(x, Quot):
                    return x
                if x is not t:
                    return self(x)
        if t.op == "c":
            v = t.a[0]
            if isinstance(v, bool):
                return num(int(v))
            if isinstance(v, (int, float)):
                return num(v)
            return atom(t)
        if t.op == "ctor" and len(t.a) == 2 and isinstance(t.a[1], Term) and ("Jet" in t.a[0] or t.a[0] in ("double", "T")):
            return self(t.a[1])
        if t.op == "op":
            o = t.a[0]
            if len(t.a) == 3 and o in "+-*/" and len(o) == 1:
                a, b = self(t.a[1]), self(t.a[2])
                if o == "+":
                    return a + b
                if o == "-":
                    return a - b
                if o == "*":
                    return a * b
                if b.n:
                    return a.div(b)
                return atom(t)
            if len(t.a) == 2 and o == "-":
                return num(-1) * self(t.a[1])
            if len(t.a) == 2 and o == "+":
                return self(t.a[1])
            if o in ("<", "<=", "==", "!=", "&&", "||", "!"):
                return atom(mk("op", o, *[self(x).term() if o not in ("&&", "||", "!") else x for x in t.a[1:]]))
        if t.op == "call" and isinstance(t.a[0], str):
            b = t.a[0]
            if b in FUN and len(t.a) == 2:
                return self.fn(FUN[b], self(t.a[1]))
            if b in POW and len(t.a) == 3:
                e = self(t.a[2]).const()
                if e is not None and e.denominator == 1 and 0 <= e <= 8:
                    r, x = num(1), self(t.a[1])
                    for _ in range(int(e)):
                        r = r * x
                    return r
                if e == Fraction(1, 2):
                    return self.fn("sqrt", self(t.a[1]))
                return atom(t)
            if b in ("hypot", "std::hypot") and len(t.a) == 3:
                x, y = self(t.a[1]), self(t.a[2])
                return self.fn("sqrt", x * x + y * y)
        if t.op == "ite":
            a, b = self(t.a[1]), self(t.a[2])
            if a.eq(b):
                return a
            return atom(mk("ite", self.cond(t.a[0]), a.term(), b.term()))
        return atom(t)

    def cond(self, c):
        if c.op == "op" and c.a[0] in ("&&", "||", "!"):
            return mk("op", c.a[0], *[self.cond(x) for x in c.a[1:]])
        if c.op == "op" and c.a[0] in ("<", "<=", "==", "!=") and len(c.a) == 3:
            return mk("op", c.a[0], self(c.a[1]).term(), self(c.a[2]).term())
        return c
