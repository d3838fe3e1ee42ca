"""Flow-sensitive abstract interpreter over the fact trees.

The abstract domain is a term (value-numbering) domain: every expression is
mapped to a canonical term over the function's inputs, fields, container
elements and loop index symbols.  Branches are merged with gated phis, loops
are summarised (body analysed once over symbolic loop-head values), calls to
repository functions are inlined, so a value has the same term however the
source spells it (helper extracted, variable renamed, loop rewritten).
There is no path enumeration and no solver.
"""
import re
import sys
sys.setrecursionlimit(20000)


class Term:
    __slots__ = ("op", "a", "_s", "n", "syms")
    _tab = {}

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


NOSYMS = frozenset()


def _tsyms(x):
    r = NOSYMS
    for y in x:
        if isinstance(y, Term):
            r = r | y.syms
        elif isinstance(y, tuple):
            r = r | _tsyms(y)
    return r


def mk(op, *a):
    key = (op,) + a
    # keep 1, 1.0 and True apart
    k2 = key + tuple(type(x).__name__ for x in a if not isinstance(x, Term))
    t = Term._tab.get(k2)
    if t is None:
        t = Term()
        t.op, t.a, t._s, t.n = op, a, None, len(Term._tab)
        if op in ("k", "i", "lam"):
            sy = frozenset((t,))
            if op == "k" and isinstance(a[0], Term):
                sy |= a[0].syms
        else:
            sy = NOSYMS
            for x in a:
                if isinstance(x, Term):
                    if x.syms and x.syms is not sy:
                        sy = sy | x.syms
                elif isinstance(x, tuple):
                    sy = sy | _tsyms(x)
        t.syms = sy
        Term._tab[k2] = t
    return t


def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, d + 1) for x in t) + ")"
    if not isinstance(t, Term):
        return str(t)
    if t._s is not None:
        return t._s
    if d > 14:
        return "..."
    op, a = t.op, t.a
    if op == "c":
        s = str(a[0])
    elif op == "fld":
        s = "%s.%s" % (show(a[0], d + 1), a[1])
    elif op == "elem":
        s = "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
    elif op == "var":
        s = "%s@%s" % (a[2], a[0])
    elif op in ("k", "i"):
        s = "#%s%s" % (op, a[-1])
    elif op == "this":
        s = "this"
    elif op == "op":
        s = "(%s %s %s)" % (show(a[1], d + 1), a[0], show(a[2], d + 1)) if len(a) > 2 else "(%s %s)" % (a[0], show(a[1], d + 1))
    elif op == "ite":
        s = "ite(%s; %s; %s)" % tuple(show(x, d + 1) for x in a)
    else:
        s = "%s(%s)" % (op, ", ".join(show(x, d + 1) for x in a))
    if len(s) > 600:
        s = s[:590] + "..."
    if d == 0 or len(s) < 200:
        t._s = s
    return s


def C(v):
    return mk("c", v)


TRUE, FALSE, NULL = mk("c", True), mk("c", False), mk("null")
EMPTY = mk("empty")


def isconst(t):
    return isinstance(t, Term) and t.op == "c"


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if isinstance(t, tuple):
        for x in t:
            yield from subterms(x, seen)
        return
    if not isinstance(t, Term) or t in seen:
        return
    seen.add(t)
    yield t
    for x in t.a:
        yield from subterms(x, seen)


def contains(t, u):
    if u.op in ("k", "i", "lam"):
        return u in (t.syms if isinstance(t, Term) else _tsyms(t))
    return any(x is u for x in subterms(t))


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, Term):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is None:
        a = tuple(subst(x, m, memo) for x in t.a)
        r = rebuild(t.op, a)
        memo[t] = r
    return r


def rebuild(op, a):
    if op == "fld":
        return fld(a[0], a[1])
    if op == "elem":
        return elem(a[0], a[1])
    if op == "rod":
        return rod(a[0])
    if op == "pose":
        return pose(*a)
    if op == "v3":
        return v3(*a)
    if op in ("R", "t"):
        return matblk(a[0], 0, 3, *((0, 3) if op == "R" else (3, 4)))
    if op == "agg":
        return mkagg(a[0], a[1])
    if op == "op":
        return binop(*a) if len(a) == 3 else unop(*a)
    if op == "ite":
        return ite(*a)
    return mk(op, *a)


# ---------------------------------------------------------------- simplifiers
def pairof(c, k):
    return mk("pair", c, k)


def agg_get(v, step):
    """look (kind,key) up in an aggregate; returns (found, value)"""
    subs = v.a[1]
    rest, hit = [], None
    may = False
    for path, val in subs:
        h = path[0]
        if h == step:
            if len(path) == 1:
                hit = val
            else:
                rest.append((path[1:], val))
        elif h[0] == "e" and step[0] == "e" and not (isconst(h[1]) and isconst(step[1])):
            may = True
    return hit, rest, may


def fld(b, n):
    if b.op == "pair":
        if n == "first":
            return b.a[1]
        if n == "second":
            return elem(b.a[0], b.a[1])
    if b.op == "iter":
        return fld(pairof(b.a[0], b.a[1]), n)
    if b.op == "mkpair":
        if n == "first":
            return b.a[0]
        if n == "second":
            return b.a[1]
    if b.op == "agg":
        hit, rest, may = agg_get(b, ("f", n))
        base = hit if hit is not None else fld(b.a[0], n)
        if rest:
            return mkagg(base, rest)
        return base
    if b.op == "ite":
        return ite(b.a[0], fld(b.a[1], n), fld(b.a[2], n))
    if b.op == "c" or b.op == "null":
        return mk("bot")
    return mk("fld", b, n)


def elem(b, k):
    if b.op == "agg":
        hit, rest, may = agg_get(b, ("e", k))
        if hit is not None:
            return mkagg(hit, rest) if rest else hit
        if not may:
            base = elem(b.a[0], k)
            return mkagg(base, rest) if rest else base
        # single comprehension  { i -> f(i) }  instantiated at k
        subs = [s for s in b.a[1] if len(s[0]) == 1 and s[0][0][0] == "e"]
        if len(subs) == 1 and len(b.a[1]) == 1:
            key = subs[0][0][0][1]
            if key.op in ("k", "i"):
                return subst(subs[0][1], {key: k})
        return mk("elem", b, k)
    if k.op == "blk" and b.op != "agg":
        return matblk(b, *k.a)
    if b.op in ("zeros", "v3", "pose") and k.op in ("c", "ij"):
        if b.op == "zeros":
            return C(0.0)
        if b.op == "v3" and idx1(k) in (0, 1, 2):
            return b.a[idx1(k)]
        if b.op == "pose" and k.op == "ij" and isconst(k.a[0]) and isconst(k.a[1]) and k.a[1].a[0] == 3 and k.a[0].a[0] < 3:
            return elem(b.a[1], k.a[0])
    if b.op == "lit" and k.op in ("c", "ij"):
        r, c = b.a[0].a[0], b.a[1].a[0]
        if k.op == "ij" and isconst(k.a[0]) and isconst(k.a[1]):
            i = k.a[0].a[0] * c + k.a[1].a[0]
        else:
            i = k.a[0] if isinstance(k.a[0], int) else -1
        if 0 <= i < len(b.a) - 2:
            return b.a[2 + i]
    if b.op == "list" and isconst(k) and isinstance(k.a[0], int) and k.a[0] < len(b.a):
        return b.a[k.a[0]]
    if b.op == "ite":
        return ite(b.a[0], elem(b.a[1], k), elem(b.a[2], k))
    if b.op == "slice":
        return elem(b.a[0], k)
    if b.op == "collect":           # collect(L, init, item, guard)
        L, init, item, guard = b.a
        if init is EMPTY and guard is TRUE and L.op == "L":
            if k.op in ("k", "i"):
                return subst(item, {L.a[1]: k})
    return mk("elem", b, k)


def mkagg(base, subs):
    if base.op == "agg":
        d = dict(base.a[1])
        for p, v in subs:
            for q in [q for q in d if q[:len(p)] == p]:
                del d[q]
            d[p] = v
        subs = list(d.items())
        base = base.a[0]
    subs = tuple(sorted(subs, key=lambda s: [(h[0], h[1].n if isinstance(h[1], Term) else h[1]) for h in s[0]]))
    return canon_mat(mk("agg", base, subs))


def _cells(v, n, keys):
    """values of cells keys(i) of aggregate v, i<n, or None"""
    out = []
    for i in range(n):
        hit = None
        for k in keys(i):
            for path, val in v.a[1]:
                if len(path) == 1 and path[0] == ("e", k):
                    hit = val
        if hit is None:
            return None
        out.append(hit)
    return out


def ij(i, j):
    return mk("ij", i, j)


def canon_mat(v):
    """3-vectors and rigid 4x4 matrices assembled cell by cell -> v3 / pose"""
    if v.op == "agg":
        b = v.a[0]
        d = {p[0][1]: x for p, x in v.a[1] if len(p) == 1 and p[0][0] == "e"}
        if len(d) == len(v.a[1]):
            if b.op in ("zeros", "mat0", "undef", "empty", "lit", "list", "ctor", "obj", "eye") and len(d) == 3:
                c = _cells(v, 3, lambda i: (C(i), ij(C(i), C(0)), ij(C(0), C(i))))
                if c:
                    return v3(*c)
            if b.op in ("eye", "lit") and len(d) >= 1:
                ident = b.op == "eye" and b.a[0] is C(4) or b.op == "lit" and b.a[2:] == EYE4
                if ident:
                    R = d.get(mk("blk", 0, 3, 0, 3))
                    t = d.get(mk("blk", 0, 3, 3, 4))
                    if R is None and t is not None and len(d) == 1:
                        return pose(mk("I3"), t)
                    if R is not None and t is not None and len(d) == 2:
                        return pose(R, t)
                    if R is not None and len(d) == 4:
                        c = _cells(v, 4 - 1, lambda i: (ij(C(i), C(3)),))
                        if c:
                            return pose(R, v3(*c))
    return v


def v3(a, b, c):
    # eta: the three components of one vector
    if all(x.op == "elem" and x.a[0] is a.a[0] for x in (a, b, c)) and a.op == "elem" and \
            [idx1(x.a[1]) for x in (a, b, c)] == [0, 1, 2] and a.a[0].op in ("rod", "t", "rvec", "out", "call", "v3", "arg", "elem", "vecpart"):
        return a.a[0]
    return mk("v3", a, b, c)


def idx1(k):
    if isconst(k):
        return k.a[0]
    if k.op == "ij" and isconst(k.a[0]) and isconst(k.a[1]):
        if k.a[1].a[0] == 0:
            return k.a[0].a[0]
        if k.a[0].a[0] == 0:
            return k.a[1].a[0]
    return None


def rod(x):
    return x.a[0] if x.op == "rod" else mk("rod", x)


def pose(R, t):
    if R.op == "R" and t.op == "t" and R.a[0] is t.a[0]:
        return R.a[0]
    return mk("pose", R, t)


def matblk(b, r0, r1, c0, c1):
    if (r0, r1, c0, c1) == (0, 3, 0, 3):
        if b.op == "pose":
            return b.a[0]
        return mk("R", b)
    if (r0, r1, c0, c1) == (0, 3, 3, 4):
        if b.op == "pose":
            return b.a[1]
        return mk("t", b)
    return mk("elem", b, mk("blk", r0, r1, c0, c1))


EYE4 = None


COMM = {"+", "*", "==", "!=", "&&", "||", "&", "|", "^"}
FLIP = {">": "<", ">=": "<="}
NEG = {"==": "!=", "!=": "==", "<": ">=", "<=": ">", ">": "<=", ">=": "<"}


def binop(op, a, b):
    if op in FLIP:
        op, a, b = FLIP[op], b, a
    if isconst(a) and isconst(b) and not isinstance(a.a[0], str) and not isinstance(b.a[0], str):
        x, y = a.a[0], b.a[0]
        try:
            if op == "+":
                return C(x + y)
            if op == "-":
                return C(x - y)
            if op == "*":
                return C(x * y)
            if op == "/" and isinstance(x, float) | isinstance(y, float) and y:
                return C(x / y)
            if op in ("%", "/") and type(x) is int and type(y) is int and x >= 0 and y > 0:
                return C(x % y if op == "%" else x // y)
            if op == "==":
                return C(x == y)
            if op == "!=":
                return C(x != y)
            if op == "<":
                return C(x < y)
            if op == "<=":
                return C(x <= y)
        except Exception:
            pass
    if op == "+" or op == "-":
        if isconst(b) and b.a[0] == 0 and not isinstance(b.a[0], bool):
            return a
        if op == "+" and isconst(a) and a.a[0] == 0 and not isinstance(a.a[0], bool):
            return b
        # (x + c1) +- c2
        if isconst(b) and a.op == "op" and len(a.a) == 3 and a.a[0] in "+-" and isconst(a.a[2]) and \
                isinstance(b.a[0], int) and isinstance(a.a[2].a[0], int):
            c = (a.a[2].a[0] if a.a[0] == "+" else -a.a[2].a[0]) + (b.a[0] if op == "+" else -b.a[0])
            return a.a[1] if c == 0 else (mk("op", "+", a.a[1], C(c)) if c > 0 else mk("op", "-", a.a[1], C(-c)))
    if op == "*" and ((isconst(a) and a.a[0] == 1) or (isconst(b) and b.a[0] == 1)):
        return b if isconst(a) and a.a[0] == 1 else a
    if op == "&&":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE or b is FALSE:
            return FALSE
    if op == "||":
        if a is FALSE:
            return b
        if b is FALSE:
            return a
        if a is TRUE or b is TRUE:
            return TRUE
    if op in ("==", "!="):
        # iterator comparisons with end()
        for x, y in ((a, b), (b, a)):
            if x.op == "iter" and y.op == "end":
                t = mk("in", x.a[0], x.a[1])
                return t if op == "!=" else unop("!", t)
            if x.op in ("count",) and isconst(y) and y.a[0] == 0:
                t = mk("in", x.a[0], x.a[1])
                return t if op == "!=" else unop("!", t)
            if x.op == "count" and isconst(y) and y.a[0] == 1:
                t = mk("in", x.a[0], x.a[1])
                return t if op == "==" else unop("!", t)
            if y.op == "null":
                t = mk("nn", x)
                return t if op == "!=" else unop("!", t)
            if isinstance(y, Term) and y.op == "c" and isinstance(y.a[0], bool):
                return x if (y.a[0] == (op == "==")) else unop("!", x)
            if x.op == "size" and isconst(y) and y.a[0] == 0:
                t = mk("isempty", x.a[0])
                return t if op == "==" else unop("!", t)
        if a is b and a.op not in ("call", "out"):
            return C(op == "==")
    if op == "<" and isconst(a) and a.a[0] == 0 and b.op in ("size", "count"):
        return unop("!", mk("isempty", b.a[0])) if b.op == "size" else mk("in", b.a[0], b.a[1])
    if op == "<=" and isconst(a) and a.a[0] == 1 and b.op in ("size", "count"):
        return unop("!", mk("isempty", b.a[0])) if b.op == "size" else mk("in", b.a[0], b.a[1])
    if op in COMM and b.n < a.n and not (op in "*+" and "Mat" in (a.op, b.op)):
        a, b = b, a
    return mk("op", op, a, b)


def unop(op, a):
    if op == "!":
        if a.op == "c":
            return C(not a.a[0])
        if a.op == "op" and a.a[0] == "!" and len(a.a) == 2:
            return a.a[1]
        if a.op == "op" and len(a.a) == 3 and a.a[0] in NEG:
            return binop(NEG[a.a[0]], a.a[1], a.a[2])
        if a.op == "op" and len(a.a) == 3 and a.a[0] == "&&":
            return binop("||", unop("!", a.a[1]), unop("!", a.a[2]))
        if a.op == "op" and len(a.a) == 3 and a.a[0] == "||":
            return binop("&&", unop("!", a.a[1]), unop("!", a.a[2]))
        if a.op == "count":
            return unop("!", mk("in", a.a[0], a.a[1]))
        if a.op == "null":
            return TRUE
    if op == "-" and isconst(a) and not isinstance(a.a[0], str):
        return C(-a.a[0])
    return mk("op", op, a)


def truth(a):
    """boolean view of a term used as a condition"""
    if a.op == "count":
        return mk("in", a.a[0], a.a[1])
    if a.op == "c":
        return C(bool(a.a[0]))
    if a.op == "size":
        return unop("!", mk("isempty", a.a[0]))
    if a.op == "null":
        return FALSE
    return a


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "op" and c.a[0] == "!" and len(c.a) == 2:
        return ite(c.a[1], b, a)
    if a.op == "c" and b.op == "c":
        if a.a[0] is True and b.a[0] is False:
            return c
        if a.a[0] is False and b.a[0] is True:
            return unop("!", c)
    if c.op == "op" and c.a[0] in ("!=",):
        return ite(unop("!", c), b, a)
    return mk("ite", c, a, b)


def conj(cs):
    out = []

    def go(c):
        if c.op == "op" and c.a[0] == "&&" and len(c.a) == 3:
            go(c.a[1])
            go(c.a[2])
        elif c is not TRUE and c not in out:
            out.append(c)
    for c in cs:
        go(c)
    return out


def root(l):
    while isinstance(l, Term) and l.op in ("fld", "elem"):
        l = l.a[0]
    return l


def path_of(l, base):
    p = []
    while l is not base:
        if l.op == "fld":
            p.append(("f", l.a[1]))
        elif l.op == "elem":
            p.append(("e", l.a[1]))
        else:
            return None
        l = l.a[0]
    return tuple(reversed(p))


EYE4 = tuple(C(1.0 if i % 5 == 0 else 0.0) for i in range(16))


class Store(dict):
    """location -> term, with an index of the stored sub-locations of a location"""
    __slots__ = ("kids",)
    NOIDX = ("this", "new", "glob")

    def __init__(self, o=()):
        dict.__init__(self, o)
        if isinstance(o, Store):
            self.kids = dict(o.kids)
        else:
            self.kids = {}
            for k in self:
                self._index(k)

    def _index(self, k):
        b = k
        while b.op in ("fld", "elem"):
            b = b.a[0]
            if b.op not in Store.NOIDX:
                t = self.kids.get(b)
                self.kids[b] = (k,) if t is None else t + (k,)

    def __setitem__(self, k, v):
        if k not in self and k.op in ("fld", "elem"):
            self._index(k)
        dict.__setitem__(self, k, v)

    def pop(self, k, d=None):
        if k in self:
            v = self[k]
            del self[k]
            return v
        return d

    def __delitem__(self, k):
        dict.__delitem__(self, k)
        b = k
        while b.op in ("fld", "elem"):
            b = b.a[0]
            t = self.kids.get(b)
            if t:
                t = tuple(x for x in t if x is not k)
                if t:
                    self.kids[b] = t
                else:
                    del self.kids[b]

    def under(self, l):
        return self.kids.get(l, ())

    def kill_under(self, l):
        for k in self.kids.get(l, ()):
            if k in self:
                del self[k]


class Event:
    __slots__ = ("kind", "ctx", "line", "fn", "stack", "d", "seq")

    def __init__(self, kind, ctx, line, fn, stack, d, seq):
        self.kind, self.ctx, self.line, self.fn, self.stack, self.d, self.seq = kind, ctx, line, fn, stack, d, seq

    def __getattr__(self, n):
        d = object.__getattribute__(self, "d")
        if n in d:
            return d[n]
        raise AttributeError(n)

    def guards(self):
        return [c[1] for c in self.ctx if c[0] == "g"]

    def loops(self):
        return [c[1] for c in self.ctx if c[0] == "l"]

    def where(self, prog):
        return "%s:%s (%s)" % (prog.rel(self.fn["file"]), self.line, self.fn["name"])

    def __repr__(self):
        return "%s@%s %s" % (self.kind, self.line, {k: v for k, v in self.d.items() if k != "expr"})


def has_jump(s):
    st = [s]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get("k") in ("break", "cont", "ret", "goto"):
                return True
            if x.get("k") != "lambda":
                st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)
    return False


def has_cont(s):
    st = [s]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get("k") == "cont":
                return True
            if x.get("k") not in ("lambda", "for", "while", "rfor", "do"):
                st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)
    return False


class Loop:
    """kind: each(container) | range(start,bound) | while(cond)"""

    def __init__(self, uid, kind, key, cont=None, start=None, bound=None, cond=None, line=0, step=1):
        self.uid, self.kind, self.key, self.cont, self.start, self.bound, self.cond, self.line = \
            uid, kind, key, cont, start, bound, cond, line
        self.step = step
        self.vars = {}      # loc -> (init, head, stepterm)
        self.has_break = False
        self.exits = []     # (how, guards inside the loop) of each break and return
        self.contval = None

    def term(self):
        return mk("L", self.uid, self.key if self.key is not None else NULL)

    def __repr__(self):
        if self.kind == "each":
            return "each(%s)" % self.cont
        if self.kind == "range":
            return "range(%s..%s)" % (self.start, self.bound)
        return "while(%s)" % self.cond


class Frame:
    def __init__(self, fn, uid, this, parent=None):
        self.fn, self.uid, self.this = fn, uid, this
        self.bind = {}
        self.rets = []
        self.c0 = 0
        self.parent = parent


class Closure:
    def __init__(self, e, frame, caps):
        self.e, self.frame, self.caps = e, frame, caps


PTRISH = ("std::shared_ptr<", "std::weak_ptr<", "std::unique_ptr<")


def bare(t):
    t = t.strip()
    while True:
        o = t
        if t.startswith("const "):
            t = t[6:]
        if t.endswith("&"):
            t = t[:-1].strip()
        if t.endswith(" const"):
            t = t[:-6]
        if t == o:
            return t


def is_ptr(t):
    t = bare(t)
    return t.endswith("*") or t.startswith(PTRISH)


def isptr(e):
    t = e.get("t", "")
    return is_array(t) or bare(t).endswith("*")


def is_array(t):
    return re.search(r"\[\d*\]$", t.rstrip()) is not None


def is_ref(t):
    return t.rstrip().endswith("&")


def is_mutref(t):
    t = t.strip()
    return t.endswith("&") and not t.startswith("const ") and not t.endswith("&&")


CONT = ("std::vector<", "std::map<", "std::unordered_map<", "std::set<", "std::array<", "std::deque<", "std::list<",
        "std::unordered_set<", "std::basic_string<")


def is_map(t):
    t = bare(t)
    return t.startswith(("std::map<", "std::unordered_map<", "std::multimap<"))


SCALAR = {"int", "unsigned int", "long", "unsigned long", "float", "double", "bool", "char", "unsigned char", "short",
          "unsigned short", "long long", "unsigned long long", "signed char"}


def pelem(b, i):
    """element i behind a pointer to the first element of b"""
    if b.op == "mrow":
        return mk("elem", b.a[0], mk("ij", b.a[1], i))
    return mk("elem", b, i)


class Interp:
    """One analysis of one entry function."""

    MAXDEPTH = 8

    def __init__(self, prog, opaque=(), record_reads=False, nolog=True, inline=True, hooks=None, keepcalls=()):
        self.prog = prog
        self.opaque = set(opaque)
        self.keepcalls = set(keepcalls)
        self.events = []
        self.rec = True
        self.store = Store()
        self.ctx = []
        self.frames = []
        self.n = 0
        self.seq = 0
        self.closures = {}
        self.record_reads = record_reads
        self.nolog = nolog
        self.do_inline = inline
        self.loops_by_uid = {}
        self.uids = {}
        self.havocs = {}
        self.grown = {}
        self.types = {}
        self.hooks = hooks or {}
        self.inlined = set()
        self.steps = 0
        self.unrolled = ()

    # ------------------------------------------------------------ utilities
    def uid(self, node=None, tag=""):
        """deterministic instance number: same syntactic site in the same
        inlining context -> same number, so repeated passes agree"""
        if node is None:
            self.n += 1
            return self.n
        key = (self.frames[-1].uid if self.frames else 0, id(node), tag, self.unrolled)
        u = self.uids.get(key)
        if u is None:
            self.n += 1
            u = self.uids[key] = self.n
        return u

    @property
    def fr(self):
        return self.frames[-1]

    def emit(self, kind, line, **d):
        if not self.rec:
            return None
        self.seq += 1
        e = Event(kind, tuple(self.ctx), line, self.fr.fn, tuple((f.fn["name"], ) for f in self.frames), d, self.seq)
        self.events.append(e)
        return e

    # --------------------------------------------------------------- memory
    def read(self, l, agg=False):
        v = self.store.get(l)
        if v is None:
            if l.op == "fld":
                v = fld(self.read(l.a[0], False) if l.a[0] in self.store or l.a[0].op in ("fld", "elem", "var") else l.a[0],
                        l.a[1])
            elif l.op == "elem":
                b = self.read(l.a[0], False) if l.a[0] in self.store or l.a[0].op in ("fld", "elem", "var") else l.a[0]
                v = self.find(l.a[0], l.a[1]) if b.op in ("filled", "empty") else None
                if v is None:
                    v = elem(b, l.a[1])
            elif l.op == "var":
                v = mk("undef", *l.a)
            else:
                v = l
        if agg:
            subs = []
            for k in self.store.under(l):
                subs.append((path_of(k, l), self.store[k]))
            if subs:
                return mkagg(v, subs)
        return v

    def find(self, b, k):
        """element k of a container filled element by element (the entries known are generic ones)"""
        keys = {}
        for x in self.store.under(b):
            while x.a[0] is not b:
                x = x.a[0]
            if x.op == "elem":
                keys[x.a[1]] = x
        if len(keys) != 1:
            return None
        (k1, x), = keys.items()
        if isconst(k1) and isconst(k):
            return None
        v = self.store.get(x)
        if v is None:
            v = mk("elem", self.read(b), k1)
        subs = [(path_of(y, x), self.store[y]) for y in self.store.under(x)]
        if subs and not is_ptr(self.types.get(x, "")):
            v = mkagg(v, subs)
        if k1.op in ("k", "i"):
            return subst(v, {k1: k})
        return mk("such", k1, k, v)

    def write(self, l, v, line=0, how="="):
        # kill sub-locations
        if not (isinstance(l, Term)):
            return
        self.store.kill_under(l)
        self.store[l] = v
        if v.op == "agg" and False:
            pass
        r = root(l)
        if r.op != "var" or l.op != "var":
            self.emit("write", line, loc=l, val=v, how=how)
        elif self.hooks.get("localwrites"):
            self.emit("lwrite", line, loc=l, val=v, how=how)

    # ---------------------------------------------------------- expressions
    LV = {"ref", "mem", "idx", "this"}

    def var_loc(self, e):
        if e.get("g"):
            g = self.prog.globals.get(e["g"])
            return mk("glob", e["g"])
        for f in (self.fr, ):
            b = f.bind.get(e["id"])
            if b is not None:
                return b
        p = self.fr.parent
        while p is not None:
            b = p.bind.get(e["id"])
            if b is not None:
                return b
            p = p.parent
        if e.get("hold"):
            return self.loc(e["hold"])
        l = mk("var", self.fr.uid, e["id"], e["n"])
        self.types[l] = e["t"]
        return l

    def objloc(self, e):
        """location (identity) of the object denoted by e (base of member)"""
        t = e.get("t", "")
        if e["k"] == "this":
            return self.fr.this
        if t and is_ptr(t) and t.rstrip().endswith("*"):
            return self.val(e)
        if e["k"] == "call":
            f = e.get("f", "")
            if f.endswith("operator->"):
                return self.val(e)
            if self.is_lv_call(e):
                return self.loc(e)
            return self.val(e)
        if e["k"] in ("ref", "mem", "idx"):
            l = self.loc(e)
            return l.a[0] if l.op == "val" else l
        if e["k"] == "un" and e["op"] == "*":
            return self.loc(e)
        return self.val(e)

    def is_lv_call(self, e):
        f = e.get("f", "")
        b = f.split("::")[-1]
        if f.startswith(("std::", "__gnu_cxx::", "cv::")):
            if b in ("operator[]", "at", "operator*", "front", "back", "get", "operator()", "operator=", "value"):
                return is_ref(e.get("rt", "")) or True if b != "operator*" else ("o" in e)
        if e.get("u") in self.prog.fns:
            return is_ref(self.prog.fns[e["u"]]["ret"])
        return False

    def loc(self, e):
        k = e["k"]
        if k == "ref":
            return self.var_loc(e)
        if k == "this":
            return self.fr.this
        if k == "mem":
            b = self.objloc(e["o"])
            return self.fldloc(b, e["n"], e.get("t"))
        if k == "idx":
            at = e["a"].get("t", "")
            b = self.val(e["a"]) if at.rstrip().endswith("*") else self.loc(e["a"])
            if b.op == "addr":
                b = b.a[0]
            i = self.val(e["i"])
            if b.op == "addr0":      # pointer to first element of an array
                return pelem(b.a[0], i)
            if b.op == "ptr":        # pointer to another element
                return pelem(b.a[0], binop("+", b.a[1], i))
            return self.elemloc(b, i)
        if k == "un":
            if e["op"] == "*":
                v = self.pointer(e["e"]) if is_array(e["e"].get("t", "")) else self.val(e["e"])
                if v.op == "addr0":
                    return pelem(v.a[0], C(0))
                if v.op == "ptr":
                    return pelem(v.a[0], v.a[1])
                return v
            if e["op"] in ("++", "--"):
                self.val(e)
                return self.loc(e["e"])
        if k == "call":
            r = self.call(e, want_loc=True)
            return r
        if k == "bin" and e["op"] in ("=", "+=", "-=", "*=", "/=", "|=", "&="):
            self.val(e)
            return self.loc(e["a"])
        if k == "cast":
            return self.loc(e["e"])
        if k == "cond":
            return self.val(e)
        v = self.val(e)
        # materialised temporary
        return v

    def fldloc(self, b, n, t=None):
        if b.op in ("pair", "iter", "mkpair", "agg"):
            r = fld(b, n)
        else:
            v = self.store.get(b)
            # a local variable holding a pair / iterator element copy
            if v is not None and v.op in ("pair", "iter"):
                key = mk("fld", b, n)
                if key in self.store:
                    return key
                r = fld(v, n)
            else:
                r = mk("fld", b, n)
        if t and isinstance(r, Term):
            self.types.setdefault(r, t)
        return r

    def elemloc(self, b, i):
        v = self.store.get(b)
        if b.op in ("list",):
            return elem(b, i)
        return mk("elem", b, i)

    def val(self, e):
        if e is None:
            return mk("none")
        k = e["k"]
        m = getattr(self, "v_" + k, None)
        if m is None:
            return mk("other", e.get("cls", k), *[self.val(x) for x in e.get("a", []) if isinstance(x, dict)])
        return m(e)

    def rdc(self, o, line):
        if self.record_reads:
            self.emit("read", line, loc=o)
        return o

    def rd(self, l, t):
        if self.record_reads and (l.op in ("fld", "elem", "glob") or l.op == "var" and self.hooks.get("varreads")):
            self.emit("read", self.line, loc=l)
        if is_ptr(t):
            return self.read(l)
        return self.read(l, agg=True)

    line = 0

    def v_ref(self, e):
        l = self.var_loc(e)
        if l.op == "glob":
            g = self.prog.globals.get(l.a[0])
            if g and g.get("e") and g["t"].startswith("const") and l not in self.store:
                return self.val(g["e"])
        if l.op == "val":
            return l.a[0]
        self.line = e["l"]
        return self.rd(l, e["t"])

    def v_this(self, e):
        return self.fr.this

    def v_mem(self, e):
        l = self.loc(e)
        self.line = e["l"]
        return self.rd(l, e["t"])

    def v_idx(self, e):
        l = self.loc(e)
        self.line = e["l"]
        return self.rd(l, e.get("t", ""))

    def v_int(self, e):
        return C(e["v"])

    def v_flt(self, e):
        v = float(e["v"])
        return C(v)

    def v_str(self, e):
        return C(e["v"])

    def v_bool(self, e):
        return C(bool(e["v"]))

    def v_null(self, e):
        return NULL

    def v_zeroinit(self, e):
        return C(0) if bare(e["t"]) in SCALAR else mk("zero", e["t"])

    def v_defarg(self, e):
        return self.val(e["e"])

    v_definit = v_defarg

    def v_cast(self, e):
        v = self.val(e["e"])
        ck = e["ck"]
        if ck in ("FloatingToBoolean", "IntegralToBoolean", "PointerToBoolean"):
            return truth(v) if ck == "IntegralToBoolean" else (mk("nn", v) if ck[0] == "P" else v)
        if isconst(v):
            if ck == "IntegralToFloating":
                return C(float(v.a[0]))
            if ck == "FloatingToIntegral":
                return C(int(v.a[0]))
            return v
        if ck == "FloatingToIntegral":
            return mk("trunc", v)
        return v

    def v_un(self, e):
        op = e["op"]
        if op == "&":
            l = self.objloc(e["e"]) if e["e"]["k"] in ("ref", "mem", "idx", "call", "un", "this") else self.val(e["e"])
            if e["e"]["k"] in ("idx",) or (e["e"]["k"] == "call" and l.op == "elem" and isconst(l.a[1]) and l.a[1].a[0] == 0
                                           and bare(e["e"].get("t", "")) in SCALAR):
                if l.op == "elem" and l.a[1] is C(0):
                    return mk("addr0", l.a[0])
            return l
        if op == "*":
            l = self.loc(e)
            return self.rd(l, e.get("t", ""))
        if op in ("++", "--", "p++", "p--"):
            l = self.loc(e["e"])
            v = self.read(l)
            nv = self.step(v, 1 if "+" in op else -1)
            self.write(l, nv, e["l"], op)
            return v if op[0] == "p" else nv
        v = self.val(e["e"])
        if op == "!":
            return unop("!", truth(v))
        if op == "+":
            return v
        return unop(op, v)

    def step(self, v, d):
        return binop("+", v, C(1)) if d > 0 else binop("-", v, C(1))

    def guard(self, c):
        return _Guard(self, c)

    def v_bin(self, e):
        op = e["op"]
        if op == "=":
            v = self.val(e["b"])
            l = self.loc(e["a"])
            self.write(l, v, e["l"])
            return v
        if op in ("&&", "||"):
            a = truth(self.val(e["a"]))
            with self.guard(a if op == "&&" else unop("!", a)):
                s0 = Store(self.store)
                b = truth(self.val(e["b"]))
                if self.store != s0:
                    self.merge(a if op == "&&" else unop("!", a), self.store, s0)
            return binop(op, a, b)
        if op == ",":
            self.val(e["a"])
            return self.val(e["b"])
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            l = self.loc(e["a"])
            o = self.read(l)
            v = self.val(e["b"])
            nv = self.arith(op[:-1], o, v, e.get("ct") or e["t"])
            if "ct" in e and bare(e["ct"]) in ("float", "double") and bare(e["t"]) not in ("float", "double"):
                nv = mk("trunc", nv)
            self.write(l, nv, e["l"], op)
            return nv
        if op == "+" and e["t"].rstrip().endswith("*"):
            for x, y in ((e["a"], e["b"]), (e["b"], e["a"])):
                if is_array(x.get("t", "")) or x.get("t", "").rstrip().endswith("*"):
                    b = self.pointer(x)
                    i = self.val(y)
                    if b.op == "ptr":
                        return mk("ptr", b.a[0], binop("+", b.a[1], i))
                    return mk("ptr", b.a[0] if b.op == "addr0" else b, i)
        a, b = self.val(e["a"]), self.val(e["b"])
        return self.arith(op, a, b, e["t"])

    def pointer(self, e):
        """value of an expression used as a pointer (arrays decay)"""
        while e["k"] == "cast":
            e = e["e"]
        if is_array(e.get("t", "")) and e["k"] in ("ref", "mem", "idx"):
            return mk("addr0", self.loc(e))
        return self.val(e)

    def arith(self, op, a, b, t):
        if op == "/" and bare(t) not in ("float", "double", "long double"):
            return mk("op", "idiv", a, b)
        return binop(op, a, b)

    def v_seq(self, e):
        for s in e["s"]:
            self.stmt(s)
        return self.val(e["e"]) if e["e"] is not None else mk("none")

    def v_cond(self, e):
        c = truth(self.val(e["c"]))
        s0 = Store(self.store)
        with self.guard(c):
            a = self.val(e["a"])
        s1, self.store = self.store, Store(s0)
        with self.guard(unop("!", c)):
            b = self.val(e["b"])
        s2 = self.store
        if s1 != s2:
            self.merge(c, s1, s2)
        return ite(c, a, b)

    def v_list(self, e):
        t = bare(e.get("t", ""))
        a = [self.val(x) for x in e["a"]]
        if t.startswith("std::array<") and len(a) == 1 and a[0].op == "list":
            return a[0]
        return mk("list", *a)

    def v_new(self, e):
        t = e["t"]
        if e.get("e") and e["e"]["k"] == "ctor":
            return self.construct(t, e["e"])
        return mk("new", t, self.uid(e, "new"))

    def v_delete(self, e):
        v = self.val(e["e"])
        self.emit("delete", e["l"], val=v)
        return mk("none")

    def v_throw(self, e):
        self.emit("throw", e["l"])
        return mk("none")

    def v_fref(self, e):
        return mk("fref", e["f"], e.get("u", ""))

    def v_mref(self, e):
        return mk("mref", e["f"])

    def v_lambda(self, e):
        u = self.uid(e, "lambda")
        caps = {}
        byref = {}
        for c in e["caps"]:
            if c.get("this"):
                continue
            if "init" in c:
                caps[c["id"]] = ("v", self.val(c["init"]))
                continue
            fake = {"k": "ref", "n": c["n"], "id": c["id"], "t": "", "l": e["l"]}
            l = self.var_loc(fake)
            caps[c["id"]] = ("r", l) if c["by"] == "ref" else ("v", self.read(l, agg=True) if l.op != "val" else l.a[0])
        t = mk("closure", u)
        self.closures[t] = Closure(e, self.fr, caps)
        return t

    def v_arrcopy(self, e):
        return self.val(e["e"])

    def v_ctor(self, e):
        a = e["a"]
        t = bare(e["t"])
        cp = e.get("cp")
        if cp in ("copy", "move") and a:
            return self.val(a[0])
        if t.startswith("std::initializer_list<") and not a:
            return EMPTY
        if t.startswith(PTRISH):
            if not a:
                return NULL
            return self.val(a[0])
        if t.startswith("std::pair<") and len(a) == 2:
            return mk("mkpair", self.val(a[0]), self.val(a[1]))
        if t.startswith("std::pair<") and len(a) == 1:
            return self.val(a[0])
        if e.get("u") in self.prog.fns:
            return self.construct(t, e)
        if t.startswith(CONT) or t == "cv::Mat" or t.startswith("cv::Mat_<"):
            if not a:
                return EMPTY
            if t.startswith("std::basic_string<"):
                return self.val(a[0])
            if t == "cv::Mat" and len(a) == 1:
                return self.comma_done(self.val(a[0]))
            if t == "cv::Mat" and len(a) == 3 and bare(a[0].get("t", "int")) == "int":
                v = [self.val(x) for x in a]
                return mk("mat0", v[0], v[1])
            if t == "cv::Mat" and len(a) >= 4 and bare(a[0].get("t", "int")) == "int":
                vals = [self.val(x) for x in a]
                if vals[3].op == "addr0" and isconst(vals[0]) and isconst(vals[1]):
                    d = self.read(vals[3].a[0], agg=True)     # matrix over a local array: its present contents
                    if d.op == "list" and len(d.a) == vals[0].a[0] * vals[1].a[0]:
                        return v3(*d.a) if len(d.a) == 3 else mk("lit", vals[0], vals[1], *d.a)
                r = mk("ctor", t, *vals)
                if self.rec:
                    self.emit("ctor", e["l"], t=t, args=vals, expr=e)
                return r
            if t.startswith("std::vector<") and len(a) >= 1:
                vals = [self.val(x) for x in a]
                if len(vals) > 1 and vals[-1].op == "ctor" and str(vals[-1].a[0]).startswith("std::allocator<"):
                    vals.pop()
                if vals[0].op == "list":
                    return vals[0]
                if len(vals) == 2 and vals[1].op == "ptr" and vals[1].a[0] is vals[0]:       # (p, p + n)
                    return mk("slice", vals[0], vals[1].a[1])
                if len(vals) == 2 and all(x.op == "call" and len(x.a) == 2 for x in vals) and vals[0].a[1] is vals[1].a[1] and \
                        vals[0].a[0].endswith("::rbegin") and vals[1].a[0].endswith("::rend"):
                    # a copy in reverse order
                    if self.rec:
                        self.emit("call", e["l"], f="std::reverse", o=None, args=[mk("begin", vals[0].a[1]), mk("end", vals[0].a[1])])
                    return mk("reversed", self.read(vals[0].a[1], agg=True))
                if vals[0].op == "begin" and len(vals) > 1 and vals[1].op == "end" and vals[0].a[0] is vals[1].a[0]:
                    return self.read(vals[0].a[0], agg=True)
                return mk("vec", *vals)
            if t.startswith(("std::map<", "std::set<")) and len(a) == 1:
                return self.val(a[0])
        vals = [self.val(x) for x in a]
        if t in ("cv::_InputArray", "cv::_OutputArray", "cv::_InputOutputArray", "cv::_InputOutputArray") and len(vals) == 1:
            return vals[0]
        if t.startswith(("cv::Vec<", "cv::Matx<")):
            return mk("list", *vals) if len(vals) > 1 else (vals[0] if vals else mk("zero", t))
        if t.startswith("cv::Point") or t.startswith("cv::Size_") or t.startswith("cv::Scalar_"):
            if len(vals) == 1:
                return vals[0] if a[0].get("t", "").find("cv::") >= 0 else mk("point", *vals)
            return mk("point", *vals)
        if len(vals) == 1 and t.startswith(("std::function<", "std::thread", "std::reference_wrapper<", "std::optional<")):
            return vals[0]
        if t.startswith(("std::lock_guard<", "std::unique_lock<", "std::scoped_lock<", "std::shared_lock<")):
            return mk("lockobj", *[self.loc(x) if x["k"] in self.LV else self.val(x) for x in a])
        r = mk("ctor", t, *vals)
        if self.rec:
            self.emit("ctor", e["l"], t=t, args=vals, expr=e)
        return r

    def construct(self, t, e, args=None):
        """run a repository constructor on a fresh object"""
        fn = self.prog.fns.get(e.get("u"))
        o = mk("new", t, self.uid(e, "new"))
        if fn is None:
            vals = [self.val(x) for x in e["a"]]
            self.emit("ctor", e["l"], t=t, args=vals, expr=e)
            return o
        argn = e["a"]
        self.emit("ctor", e["l"], t=t, args=None, obj=o, expr=e)
        self.inline(fn, o, argn, e["l"], node=e)
        return o

    # ---------------------------------------------------------------- calls
    def call(self, e, want_loc=False):
        r = self._call(e, want_loc)
        return r

    def v_call(self, e):
        r = self._call(e, False)
        return r

    def arg_loc(self, x):
        """location of an argument passed by reference"""
        y = x
        while y["k"] in ("cast", "defarg") or (y["k"] == "ctor" and y["t"].startswith(("cv::_", "const cv::_")) and len(y["a"]) == 1):
            y = y["e"] if "e" in y else y["a"][0]
        if y["k"] in ("ref", "mem", "idx") or (y["k"] == "un" and y["op"] == "*") or (y["k"] == "call" and self.is_lv_call(y)):
            return self.loc(y)
        return None

    def _call(self, e, want_loc):
        f = e.get("f")
        if f is None:
            # call through a value
            fe = self.val(e["fe"])
            return self.call_value(fe, e)
        b = f.split("::")[-1]
        for h in self.hooks.get("call", ()):
            r = h(self, e, f, b, want_loc)
            if r is not None:
                return r
        u = e.get("u")
        if u is not None and u in self.prog.fns and f not in self.opaque and self.do_inline:
            fn = self.prog.fns[u]
            if len(self.frames) < self.MAXDEPTH and not any(fr.fn is fn for fr in self.frames):
                this = None
                if "o" in e and "cls" in fn:
                    this = self.objloc(e["o"])
                    if this.op == "list" or this.op == "call":
                        pass
                if f in self.keepcalls:
                    self.emit("icall", e["l"], f=f, o=this, expr=e)
                return self.inline(fn, this, e["a"], e["l"], f, node=e)
        if "o" in e:
            r = self.method(e, f, b, want_loc)
            if r is not None:
                return r
        else:
            r = self.function(e, f, b, want_loc)
            if r is not None:
                return r
        return self.external(e, f, b)

    def call_value(self, fe, e):
        if fe in self.closures:
            return self.run_closure(fe, [self.val(x) for x in e["a"]], e["l"], [self.arg_loc(x) for x in e["a"]], e.get("fu") or e.get("u"))
        if fe.op == "fref" and fe.a[1] in self.prog.fns:
            return self.inline(self.prog.fns[fe.a[1]], None, e["a"], e["l"], node=e)
        vals = [self.val(x) for x in e["a"]]
        self.emit("call", e["l"], f="?", o=fe, args=vals, locs=[], expr=e)
        return mk("call", "?", fe, *vals)

    def run_closure(self, ct, vals, line, locs=None, u=None):
        cl = self.closures[ct]
        for x in cl.e.get("insts") or ():
            if x["u"] == u:         # another instantiation of a generic lambda
                cl = Closure(dict(cl.e, params=x["params"], body=x["body"]), cl.frame, cl.caps)
        fn = dict(cl.frame.fn)
        fr = Frame(cl.frame.fn, self.uid(cl.e, ("run", line)), cl.frame.this, cl.frame)
        fr.c0 = len(self.ctx)
        if len(self.frames) > self.MAXDEPTH + 4:
            return mk("call", "closure", *vals)
        for i, cid in enumerate(cl.caps):
            kind, v = cl.caps[cid]
            if kind == "r":
                fr.bind[cid] = v
            else:
                l = mk("var", fr.uid, cid, "cap")
                self.store[l] = v
                fr.bind[cid] = l
        for i, p in enumerate(cl.e["params"]):
            if i < len(vals):
                if is_ref(p["t"]) and locs and locs[i] is not None:
                    fr.bind[p["id"]] = locs[i]
                else:
                    l = mk("var", fr.uid, p["id"], p["n"])
                    self.store[l] = vals[i]
                    fr.bind[p["id"]] = l
        return self.run_body(fr, cl.e["body"], line)

    def inline(self, fn, this, args, line, fname=None, node=None):
        fr = Frame(fn, self.uid(node, ("fr", fn["u"])), this)
        fr.c0 = len(self.ctx)
        self.inlined.add(fn["u"])
        for p, a in zip(fn["params"], args):
            t = p["t"]
            if is_ref(t):
                l = self.arg_loc(a)
                if l is not None:
                    fr.bind[p["id"]] = l
                    continue
            v = self.pointer(a) if t.rstrip(" const").endswith("*") or t.rstrip().endswith("*") else self.val(a)
            l = mk("var", fr.uid, p["id"], p["n"])
            self.types[l] = t
            self.store[l] = v
            fr.bind[p["id"]] = l
        return self.run_body(fr, fn["body"], line, fn)

    def run_body(self, fr, body, line, fn=None):
        self.frames.append(fr)
        nctx = len(self.ctx)
        try:
            if fn is not None and fn.get("ctor"):
                self.ctor_inits(fn)
            self.stmt(body)
        finally:
            self.frames.pop()
            del self.ctx[nctx:]
        if self.frames and fn is not None:
            for l in fr.bind.values():
                if l.op == "var" and l.a[0] == fr.uid:
                    self.store.kill_under(l)
                    self.store.pop(l, None)
        return self.fold_rets(fr)

    def fold_rets(self, fr):
        if not fr.rets:
            return mk("none")
        r = fr.rets[-1][1]
        for g, v in reversed(fr.rets[:-1]):
            c = TRUE
            for x in g:
                c = binop("&&", c, x)
            r = ite(c, v, r)
        return r

    def ctor_inits(self, fn):
        this = self.fr.this
        done = set()
        for i in fn.get("inits", []):
            if "field" in i:
                done.add(i["field"])
                l = mk("fld", this, i["field"])
                if i.get("e") is None:
                    continue
                v = self.val(i["e"])
                self.write(l, v, i["l"] or fn["l"], "init")
            elif i.get("delegating"):
                pass

    def external(self, e, f, b):
        vals, locs = [], []
        pt = e.get("pt", [])
        for i, x in enumerate(e["a"]):
            vals.append(self.val(x))
            locs.append(self.arg_loc(x) if x["k"] not in ("defarg",) else None)
        o = self.objloc(e["o"]) if "o" in e else None
        ev = self.emit("call", e["l"], f=f, o=o, args=vals, locs=locs, expr=e, m=e.get("m"))
        # out parameters
        for i, l in enumerate(locs):
            t = pt[i] if i < len(pt) else ""
            if l is not None and (is_mutref(t) or "cv::_OutputArray" in t or "cv::_InputOutputArray" in t):
                if is_mutref(t) and ("ostream" in t or "Logger" in t):
                    continue
                self.write(l, mk("out", f, i, *vals), e["l"], "out:" + f)
        if o is not None and e.get("m") == "mut" and o.op == "var" and not f.startswith("ceres::"):
            pass
        r = mk("call", f, *(([o] if o is not None else []) + vals))
        return r

    # ------------------------------------------------ known library methods
    def method(self, e, f, b, want_loc):
        oe = e["o"]
        ot = bare(oe.get("t", "")) if oe["k"] != "this" else ""
        a = e["a"]
        cls = "::".join(f.split("::")[:-1])
        line = e["l"]
        std = f.startswith(("std::", "__gnu_cxx::"))
        if std:
            if cls.endswith(("shared_ptr", "weak_ptr", "unique_ptr", "__shared_ptr", "__weak_ptr", "__shared_ptr_access")) or \
                    "ptr_access" in cls or "shared_ptr" in cls or "weak_ptr" in cls:
                if b in ("operator->", "operator*", "get"):
                    v = self.val(oe)
                    self.emit("deref", line, val=v, via=oe)
                    return v
                if b == "lock":
                    v = self.val(oe)
                    self.emit("wlock", line, val=v)
                    return v
                if b == "expired":
                    return unop("!", mk("nn", self.val(oe)))
                if b == "operator bool":
                    return mk("nn", self.val(oe))
                if b == "operator=":
                    v = self.val(a[0])
                    self.write(self.loc(oe), v, line)
                    return v if not want_loc else self.loc(oe)
                if b == "reset":
                    self.write(self.loc(oe), self.val(a[0]) if a else NULL, line)
                    return mk("none")
            if b in ("operator[]", "at"):
                o = self.objloc(oe)
                i = self.val(a[0])
                l = self.elemloc(o, i)
                self.types.setdefault(l, e.get("t", ""))
                if not is_map(ot):
                    self.emit("index", line, cont=o, key=i, how=b, t=ot, cv=self.read(o))
                if want_loc:
                    if is_map(ot) and b == "operator[]":
                        self.emit("touch", line, cont=o, key=i)
                    return l
                self.line = line
                self.emit("access", line, cont=o, key=i, how=b, t=ot)
                return self.rd(l, e.get("t", ""))
            if b == "front":
                o = self.objloc(oe)
                l = self.elemloc(o, C(0))
                self.emit("index", line, cont=o, key=C(0), how=b, t=ot, cv=self.read(o))
                return l if want_loc else self.rd(l, e.get("t", ""))
            if b == "back":
                o = self.objloc(oe)
                v = self.read(o)
                self.emit("index", line, cont=o, key=C(0), how=b, t=ot, cv=v)
                l = mk("elem", o, mk("last", o))
                if not want_loc and v.op == "push":
                    return v.a[1]
                return l if want_loc else self.rd(l, e.get("t", ""))
            if b == "data":
                return mk("addr0", self.objloc(oe))
            if b in ("size", "length"):
                return self.size(self.rdc(self.objloc(oe), line))
            if b == "empty":
                s = self.size(self.rdc(self.objloc(oe), line))
                return binop("==", s, C(0))
            if b in ("begin", "cbegin"):
                return mk("begin", self.rdc(self.objloc(oe), line))
            if b in ("end", "cend"):
                return mk("end", self.rdc(self.objloc(oe), line))
            if b == "find" and (is_map(ot) or "set<" in ot):
                self.emit("test", line, cont=self.objloc(oe), key=self.val(a[0]))
                return mk("iter", self.objloc(oe), self.val(a[0]))
            if b == "count" and len(a) == 1:
                self.emit("test", line, cont=self.objloc(oe), key=self.val(a[0]))
                return mk("count", self.objloc(oe), self.val(a[0]))
            if b in ("operator->", "operator*") and ("iterator" in cls):
                v = self.val(oe)
                return self.deref_iter(v, ot, want_loc)
            if b in ("push_back", "emplace_back", "push", "emplace") and not is_map(ot) and "set<" not in ot:
                o = self.objloc(oe)
                if len(a) == 1:
                    v = self.val(a[0])
                else:
                    v = self.mkvalue(ot, a)
                self.emit("push", line, cont=o, val=v, t=ot)
                old = self.read(o, agg=True)
                self.store_quiet(o, mk("push", old, v))
                return mk("none")
            if (b in ("push_front", "emplace_front") and len(a) == 1 or b in ("insert", "emplace") and len(a) in (2, 3) and "vector<" in ot) and \
                    not is_map(ot) and "set<" not in ot:
                o = self.objloc(oe)
                old = self.read(o, agg=True)

                def iterof(x):
                    while x.op == "ctor" and "_iterator" in str(x.a[0]) and len(x.a) == 2:
                        x = x.a[1]
                    k = x.op if x.op in ("begin", "end") else str(x.a[0]).split("::")[-1].lstrip("c") if x.op == "call" and len(x.a) == 2 else None
                    return (k, x.a[-1]) if k in ("begin", "end") else (None, None)
                vals = [self.val(x) for x in a]
                k, w = iterof(vals[0]) if len(a) > 1 else ("begin", o)
                k = k if w is o or w is old else None
                if len(a) < 3 and k == "end":
                    self.emit("push", line, cont=o, val=vals[1], t=ot)
                    new = mk("push", old, vals[1])
                elif len(a) < 3 and k == "begin":
                    self.emit("push", line, cont=o, val=vals[-1], t=ot, front=True)
                    new = mk("pushfront", old, vals[-1])
                else:
                    self.emit("call", line, f=f, o=o, args=vals)
                    x, y = (iterof(v) for v in vals[1:]) if len(a) == 3 else ((None, None), (None, None))
                    new = mk("inserted", old, *vals)
                    if k == "end" and x[0] == "begin" and y[0] == "end" and x[1] is y[1]:
                        w = self.read(x[1], agg=True)
                        new = w if old is EMPTY else mk("cat", old, w)
                self.store_quiet(o, new)
                return mk("none")
            if b in ("insert", "emplace", "insert_or_assign", "try_emplace") and (is_map(ot) or "set<" in ot):
                o = self.objloc(oe)
                vals = [self.val(x) for x in a]
                if is_map(ot):
                    if len(vals) == 1:
                        k, v = fld(vals[0], "first"), fld(vals[0], "second")
                    elif len(vals) >= 2:
                        k, v = vals[0], vals[1]
                    self.emit("mapins", line, cont=o, key=k, val=v, how=b)
                    if b == "insert_or_assign" or True:
                        self.store_quiet(mk("elem", o, k), v)
                    return mk("iter", o, k)
                self.emit("setins", line, cont=o, val=vals[-1])
                return mk("none")
            if b == "clear":
                o = self.objloc(oe)
                self.write(o, EMPTY, line, "clear")
                return mk("none")
            if b == "resize" or b == "assign":
                o = self.objloc(oe)
                vals = [self.val(x) for x in a]
                self.write(o, mk("vec", *vals), line, b)
                return mk("none")
            if b == "reserve" or b == "shrink_to_fit":
                for x in a:
                    self.val(x)
                return mk("none")
            if b in ("erase", "pop_back", "pop_front"):
                o = self.objloc(oe)
                vals = [self.val(x) for x in a]
                self.emit("erase", line, cont=o, args=vals)
                old = self.read(o, agg=True)
                self.store_quiet(o, mk("erased", old, *vals))
                return mk("none")
            if b == "operator=":
                v = self.val(a[0])
                l = self.loc(oe)
                self.write(l, v, line)
                return l if want_loc else v
            if b == "c_str" or b == "str":
                return self.val(oe) if b == "c_str" else mk("call", f, self.objloc(oe))
            if b == "operator+=":
                l = self.loc(oe)
                v = binop("cat", self.read(l), self.val(a[0]))
                self.write(l, v, line)
                return v
            if b in ("operator++", "operator--"):
                l = self.loc(oe)
                v = self.read(l)
                self.write(l, mk("next" if b[-1] == "+" else "prev", v), line)
                return v
            if b == "operator()":
                v = self.val(oe)
                if v in self.closures:
                    return self.run_closure(v, [self.val(x) for x in a], line, [self.arg_loc(x) for x in a], e.get("fu") or e.get("u"))
        if b == "operator()" and oe.get("k") in ("ref", "lambda", "mem"):
            v = self.val(oe)
            if v in self.closures:
                return self.run_closure(v, [self.val(x) for x in a], line, [self.arg_loc(x) for x in a], e.get("fu") or e.get("u"))
        if f.startswith("cv::"):
            r = self.cvmethod(e, f, b, want_loc, oe, ot, a, line)
            if r is not None:
                return r
        if b == "operator=" and e.get("op") == "=":
            # implicit or library assignment
            v = self.val(a[0])
            l = self.loc(oe)
            self.write(l, v, line)
            return l if want_loc else v
        return None

    def mkvalue(self, ot, a):
        inner = ot[ot.find("<") + 1:]
        vals = [self.val(x) for x in a]
        if inner.startswith("std::pair<") and len(vals) == 2:
            return mk("mkpair", *vals)
        if inner.startswith(("cv::Point", "cv::Size")):
            return mk("point", *vals)
        return mk("mk", *vals)

    def store_quiet(self, l, v):
        self.store.kill_under(l)
        self.store[l] = v

    def size(self, o):
        v = self.read(o, agg=False)
        if v is EMPTY:
            return mk("size", mk("filled", mk("none"), o)) if any(x.op == "elem" and x.a[0] is o for x in self.store.under(o)) \
                else C(0)
        if v.op == "list":
            return C(len(v.a))
        if v.op == "vec" and len(v.a) in (1, 2):
            return v.a[0]
        if v.op == "slice":
            return v.a[1]
        n = 0
        w = v
        while w.op == "push":
            n += 1
            w = w.a[0]
        if n:
            if w is EMPTY:
                return C(n)
        return mk("size", v)

    def deref_iter(self, v, ot, want_loc):
        if v.op == "iter":
            if v.a[1] is None:
                return v
            if "map" in str(self.types.get(v.a[0], "")) or v.op == "iter":
                # element view: pair for maps, element for sequences
                t = self.types.get(v.a[0], ot)
                if is_map(t) or "_Rb_tree" in ot or "_Node" in ot or "std::pair<" in ot:
                    return pairof(v.a[0], v.a[1])
                return elem(v.a[0], v.a[1]) if not want_loc else mk("elem", v.a[0], v.a[1])
        if v.op == "begin":
            if "_Rb_tree" in ot or "_Node" in ot:
                return pairof(v.a[0], mk("firstkey", v.a[0]))
            return mk("elem", v.a[0], C(0))
        return mk("deref", v)

    def cvmethod(self, e, f, b, want_loc, oe, ot, a, line):
        if b == "push_back" and f.startswith(("cv::Mat::", "cv::Mat_")) and len(a) == 1:
            o = self.objloc(oe)
            v = self.val(a[0])
            self.emit("push", line, cont=o, val=v, t=ot)
            self.store_quiet(o, mk("push", self.read(o, agg=True), v))
            return mk("none")
        if f.startswith("cv::Mat::ptr"):
            o = self.objloc(oe)
            if not a or a[0]["k"] == "defarg":
                return mk("addr0", o)
            if len(a) == 1:
                return mk("addr0", mk("mrow", o, self.val(a[0])))
        if f == "cv::Mat::empty":
            v = self.read(self.rdc(self.objloc(oe), line), agg=True)
            return TRUE if v is EMPTY else mk("isempty", v)
        if b in ("at", "operator()") and f.startswith(("cv::Mat::", "cv::Mat_", "cv::Vec", "cv::Matx")):
            o = self.objloc(oe)
            idx = [self.val(x) for x in a]
            key = idx[0] if len(idx) == 1 else mk("ij", *idx)
            if len(idx) == 1 and idx[0].op == "ctor" and "Rect" in idx[0].a[0]:
                key = idx[0]
            if len(idx) == 2 and all(i.op == "ctor" and i.a[0] == "cv::Range" and len(i.a) == 3 and isconst(i.a[1]) and isconst(i.a[2])
                                     for i in idx):
                key = mk("blk", idx[0].a[1].a[0], idx[0].a[2].a[0], idx[1].a[1].a[0], idx[1].a[2].a[0])
            l = mk("elem", o, key)
            if want_loc:
                return l
            self.emit("access", line, cont=o, key=key, how=b, t=ot)
            return self.rd(l, e.get("t", ""))
        if f == "cv::MatCommaInitializer_<double>::operator," or b == "operator,":
            o = self.val(oe)
            x = self.val(a[0])
            if o.op == "comma":
                return mk("comma", *(o.a + (x,)))
            return None
        if b in ("rowRange", "colRange") or b in ("row", "col"):
            return mk(b, self.val(oe), *[self.val(x) for x in a])
        if b == "operator[]":
            o = self.objloc(oe)
            l = self.elemloc(o, self.val(a[0]))
            return l if want_loc else self.rd(l, e.get("t", ""))
        if b == "clone":
            return self.val(oe)
        if b == "copyTo":
            l = self.arg_loc(a[0])
            if l is not None and len(a) == 1:
                self.write(l, self.val(oe), line)
                return mk("none")
        if b == "convertTo":
            l = self.arg_loc(a[0])
            if l is not None:
                self.write(l, self.val(oe), line, "convert")
                return mk("none")
        if b == "inv" or b == "t":
            for x in a:
                self.val(x)
            return mk(b, self.val(oe))
        if b.startswith("operator Mat") or b in ("operator Mat", "getMat"):
            return self.comma_done(self.val(oe))
        if b in ("operator Point_", "operator Point3_", "operator Vec") or e.get("conv"):
            return self.val(oe)
        if b == "operator=" and len(a) == 1:
            v = self.val(a[0])
            l = self.loc(oe)
            self.write(l, v, line)
            return l if want_loc else v
        return None

    def comma_done(self, v):
        if v.op == "comma" and isconst(v.a[0]) and isconst(v.a[1]):
            vals = []
            for x in v.a[2:]:
                if isconst(x) and isinstance(x.a[0], int) and not isinstance(x.a[0], bool):
                    x = C(float(x.a[0]))
                vals.append(x)
            r, c = v.a[0].a[0], v.a[1].a[0]
            if (r, c) in ((3, 1), (1, 3)) and len(vals) == 3:
                return v3(*vals)
            return mk("lit", v.a[0], v.a[1], *vals)
        return v

    # --------------------------------------------------- known free functions
    def function(self, e, f, b, want_loc):
        a = e["a"]
        line = e["l"]
        if f in ("std::make_shared", "std::make_unique"):
            t = (e.get("ta") or ["?"])[0]
            return self.make_shared(t, e)
        if f in ("std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "std::static_pointer_cast") and len(a) == 1:
            if want_loc and a[0]["k"] in ("ref", "mem", "idx", "call"):
                return self.loc(a[0])
            return self.val(a[0])
        if f == "std::make_pair":
            return mk("mkpair", self.val(a[0]), self.val(a[1]))
        if f == "std::get" and len(a) == 1:
            i = (e.get("ta") or ["0"])[0]
            v = self.objloc(a[0]) if a[0]["k"] in ("ref", "mem", "idx") else self.val(a[0])
            n = {"0": "first", "1": "second"}.get(i, i)
            l = self.fldloc(v, n)
            return l if want_loc else self.rd(l, e.get("t", ""))
        if f == "std::swap" and len(a) == 2:
            la, lb = self.arg_loc(a[0]), self.arg_loc(a[1])
            va, vb = self.val(a[0]), self.val(a[1])
            if la is not None and lb is not None:
                self.write(la, vb, line)
                self.write(lb, va, line)
                return mk("none")
        if b.startswith("operator") and "op" in e and len(a) == 2 and e["op"] in (
                "+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=", "&", "|"):
            if f.startswith(("std::", "__gnu_cxx::")) and e["op"] in ("==", "!="):
                return binop(e["op"], self.val(a[0]), self.val(a[1]))
            if f.startswith("std::") and e["op"] == "+":
                return mk("cat", self.val(a[0]), self.val(a[1]))
            if f.startswith("cv::"):
                x, y = self.val(a[0]), self.val(a[1])
                if e["op"] == "*":
                    return mk("mul", x, y)
                return mk("cvop", e["op"], x, y)
            if f.startswith(("std::", "ceres::")):
                x, y = self.val(a[0]), self.val(a[1])
                return binop(e["op"], x, y)
        if b.startswith("operator") and "op" in e and len(a) == 2 and e["op"] in ("+=", "-=", "*=", "/="):
            l = self.arg_loc(a[0])
            if l is not None:
                v = mk("cvop", e["op"][0], self.read(l, agg=True), self.val(a[1]))
                self.write(l, v, line)
                return l if want_loc else v
        if f.startswith("cv::operator<<") and len(a) == 2:
            ops, x = [a[1]], a[0]
            while True:
                y = x
                while y.get("k") == "cast":
                    y = y["e"]
                if y.get("k") == "call" and y.get("f", "").startswith("cv::operator<<") and len(y.get("a") or ()) == 2:
                    ops.append(y["a"][1])
                    x = y["a"][0]
                else:
                    break
            if "FileStorage" in str(y.get("t", "")):
                # one event per thing written, in order
                l = self.arg_loc(y)
                if l is None:
                    l = self.val(y)
                for z in reversed(ops):
                    w = z
                    while w.get("k") == "cast":
                        w = w["e"]
                    vl = self.arg_loc(z)
                    self.emit("fsw", z.get("l", line) or line, loc=l, val=self.val(z), ty=str(w.get("t", "")), vloc=vl)
                return l
            m = self.val(a[0])
            if m.op == "ctor" and m.a[0].startswith("cv::Mat_<") and len(m.a) == 3:
                return mk("comma", m.a[1], m.a[2], self.val(a[1]))
            if m.op == "mat0":
                return mk("comma", m.a[0], m.a[1], self.val(a[1]))
        if f == "cv::Rodrigues" and len(a) >= 2:
            src = self.val(a[0])
            l = self.arg_loc(a[1])
            if l is not None:
                self.write(l, rod(src), line, "out:" + f)
                return mk("none")
        if f in ("cv::Mat::zeros", "cv::Mat_::zeros", "cv::Mat::eye") and len(a) >= 2:
            v = [self.val(x) for x in a]
            return mk(b, v[0], v[1])
        if f == "ceres::AngleAxisRotatePoint" and len(a) == 3:
            return self.rotate_point(a, line)
        if f in ("std::copy_n", "std::copy") and len(a) == 3 and all(isptr(x) for x in (a[0], a[2])):
            n = self.val(a[1]) if f == "std::copy_n" else self.distance(a[0], a[1])
            if n is not None and isconst(n) and isinstance(n.a[0], int) and 0 <= n.a[0] <= 16:
                return self.copy_array(a[0], n.a[0], a[2], line)
        if f in ("std::begin", "std::end") and len(a) == 1:
            return mk(b, self.objloc(a[0]))
        return None

    def rotate_point(self, a, line):
        r, p, dst = [self.at_pointer(self.pointer(x)) for x in a]
        rv = [self.read(r(i)) for i in range(3)]
        pv = [self.read(p(i)) for i in range(3)]
        for i in range(3):
            self.write(dst(i), mk("rotpt", i, *(rv + pv)), line, "rot")
        return mk("none")

    def distance(self, a, b):
        x, y = self.pointer(a), self.pointer(b)
        off = lambda q: (q.a[0], q.a[1]) if q.op == "ptr" else (q.a[0] if q.op == "addr0" else q, C(0))
        (p, i), (q, j) = off(x), off(y)
        return binop("-", j, i) if p is q else None

    @staticmethod
    def at_pointer(p):
        """elements behind a pointer"""
        if p.op == "addr0":
            return lambda i: pelem(p.a[0], C(i))
        if p.op == "ptr":
            return lambda i: pelem(p.a[0], binop("+", p.a[1], C(i)))
        return lambda i: mk("elem", p, C(i))

    def copy_array(self, a, n, dst, line):
        src, dst = self.at_pointer(self.pointer(a)), self.at_pointer(self.pointer(dst))
        vs = [self.read(src(i)) for i in range(n)]
        for i, v in enumerate(vs):
            self.write(dst(i), v, line)
        return mk("none")

    def make_shared(self, t, e):
        ctors = [fn for fn in self.prog.by_name.get(t + "::" + t.split("::")[-1], []) if len(fn["params"]) == len(e["a"])
                 and not fn.get("implicit")]
        o = mk("new", t, self.uid(e, "new"))
        self.emit("ctor", e["l"], t=t, obj=o, args=None, expr=e)
        if len(e["a"]) == 1 and not ctors and bare(e["a"][0].get("t", "")) == t:
            v = self.val(e["a"][0])
            self.store[o] = v
            return o
        if ctors:
            self.inline(ctors[0], o, e["a"], e["l"], node=e)
        else:
            for x in e["a"]:
                self.val(x)
        return o

    # ----------------------------------------------------------- statements
    def merge(self, c, s1, s2):
        """store := c ? s1 : s2"""
        out = Store(s1)
        ks = [k for k, v in s1.items() if s2.get(k) is not v]
        ks += [k for k in s2 if k not in s1]
        for k in ks:
            a, b = s1.get(k), s2.get(k)
            if a is b:
                out[k] = a
                continue
            if a is None:
                save, self.store = self.store, s1
                self.store = s1
                a = self.default(k, s1)
                self.store = save
            if b is None:
                save = self.store
                b = self.default(k, s2)
                self.store = save
            out[k] = ite(c, a, b)
        self.store = out

    def default(self, k, s):
        save, self.store = self.store, s
        try:
            return self.read(k)
        finally:
            self.store = save

    def is_log_for(self, s):
        i = s.get("init")
        if i and i["k"] == "decls" and i["d"] and "boost::log" in i["d"][0]["t"]:
            return True
        return False

    def stmt(self, s):
        """returns divergence: dict kind -> condition term (TRUE when certain)"""
        if s is None:
            return {}
        self.steps += 1
        return getattr(self, "s_" + s["k"], self.s_unknown)(s)

    def s_unknown(self, s):
        if s.get("body"):
            return self.stmt(s["body"])
        return {}

    def s_nop(self, s):
        return {}

    def s_block(self, s):
        div = {}
        n = len(self.ctx)
        scope = []
        for x in s["s"]:
            d = self.stmt(x)
            if x and x["k"] == "decls":
                scope += x["d"]
            if d:
                for k, c in d.items():
                    div[k] = binop("||", div[k], c) if k in div else c
                if any(c is TRUE for c in d.values()):
                    self.scope_exit(scope, s)
                    del self.ctx[n:]
                    return div
                for c in d.values():
                    for g in conj([unop("!", c)]):
                        self.ctx.append(("g", g))
        self.scope_exit(scope, s)
        del self.ctx[n:]
        return div

    def scope_exit(self, scope, s):
        for d in scope:
            if any(x in d["t"] for x in ("lock_guard<", "unique_lock<", "scoped_lock<", "shared_lock<")):
                self.emit("unlock", s.get("e", s["l"]), var=mk("var", self.fr.uid, d["id"], d["n"]))

    def s_decls(self, s):
        for d in s["d"]:
            self.decl(d)
        return {}

    def decl(self, d):
        l = mk("var", self.fr.uid, d["id"], d["n"])
        t = d["t"]
        if d.get("static") and not t.startswith("const ") and not is_ref(t):
            # keeps its value from call to call
            l = mk("glob", "%s%s::%s" % ("thread_local " if d.get("tls") else "", self.fr.fn["name"] if self.fr.fn else "?", d["n"]))
            self.types[l] = t
            self.fr.bind[d["id"]] = l
            return
        self.types[l] = t
        if d.get("bindings"):
            v = self.objloc(d["init"]) if d["init"] and is_ref(t) else self.val(d["init"])
            for i, b in enumerate(d["bindings"]):
                self.fr.bind[b["id"]] = self.bound(v, i)
            return
        if is_ref(t) and d["init"] is not None:
            i = d["init"]
            y = i
            if y["k"] in ("ref", "mem", "idx", "this") or (y["k"] == "call" and (self.is_lv_call(y))) or \
                    (y["k"] == "un" and y["op"] == "*"):
                b = self.loc(y)
                self.fr.bind[d["id"]] = b
                if b in self.types or True:
                    self.types.setdefault(b, t)
                return
            v = self.val(i)
            self.store[l] = v
            self.fr.bind[d["id"]] = l
            return
        self.fr.bind[d["id"]] = l
        if d["init"] is None:
            self.store.pop(l, None)
            self.store.kill_under(l)
            return
        i = d["init"]
        if i["k"] == "ctor" and i.get("u") in self.prog.fns and i.get("cp") not in ("copy", "move"):
            self.store_quiet(l, mk("obj", bare(t), self.uid(d, "obj")))
            self.inline(self.prog.fns[i["u"]], l, i["a"], d["l"], node=i)
            return
        v = self.val(i)
        if v.op == "lockobj":
            self.emit("lock", d["l"], mutex=v.a[0] if v.a else None, var=l, t=t, more=v.a[1:])
        if i["k"] == "ctor" and not i["a"] and not i["t"].startswith(CONT) and v.op == "ctor":
            v = mk("obj", bare(t), self.uid(d, "obj"))
        self.store_quiet(l, v)
        if self.hooks.get("localwrites"):
            self.emit("lwrite", d["l"], loc=l, val=v, how="decl")

    def bound(self, v, i):
        n = ("first", "second")[i] if i < 2 else str(i)
        if v.op in ("pair", "iter"):
            r = fld(v, n)
            if i == 0:
                return mk("val", r) if r.op not in ("elem", "fld", "var") else mk("val", r)
            return r
        r = fld(v, n) if v.op in ("mkpair", "agg") else mk("fld", v, n)
        return mk("val", r) if r.op not in ("elem", "fld", "var") else r

    def s_expr(self, s):
        e = s["e"]
        self.val(e)
        if e and e["k"] == "throw":
            return {"ret": TRUE}
        if e and e["k"] == "call" and e.get("f") in ("exit", "std::exit", "abort", "std::abort", "std::terminate", "__assert_fail"):
            return {"ret": TRUE}
        return {}

    def outs(self):
        """values of the entry's parameters where it returns"""
        if len(self.frames) != 1:
            return None
        return {l: self.store.get(l) for l in self.fr.bind.values() if l.op == "arg"}

    def s_ret(self, s):
        gs = []
        for c in reversed(self.ctx[self.fr.c0:]):
            if c[0] == "l":
                c[1].exits.append(("return", list(gs)))
            elif c[0] == "g":
                gs.append(c[1])
        if s["e"] is not None:
            rt = self.fr.fn.get("ret", "")
            v = self.loc(s["e"]) if is_ref(rt) and s["e"]["k"] in ("ref", "mem", "idx", "call") and self.fr.parent is None and \
                self.fr.fn.get("kind") == "func" and not self.in_lambda() else self.val(s["e"])
            base = self.ctx_base.get(self.fr.uid, 0) if hasattr(self, "ctx_base") else 0
            self.fr.rets.append((self.local_guards(), v))
            self.emit("ret", s["l"], val=v, depth=len(self.frames), outs=self.outs())
        else:
            self.emit("ret", s["l"], val=None, depth=len(self.frames), outs=self.outs())
        return {"ret": TRUE}

    def in_lambda(self):
        return self.fr.parent is not None

    def local_guards(self):
        return [c[1] for c in self.ctx[self.fr.ctx0:] if c[0] == "g"] if hasattr(self.fr, "ctx0") else \
            [c[1] for c in self.ctx if c[0] == "g"]

    def s_break(self, s):
        gs = []
        for c in reversed(self.ctx):
            if c[0] == "l":
                c[1].has_break = True
                c[1].exits.append(("break", gs))
                break
            if c[0] == "g":
                gs.append(c[1])
        return {"brk": TRUE}

    def s_cont(self, s):
        return {"cont": TRUE}

    def s_goto(self, s):
        return {}

    def s_if(self, s):
        n0 = len(self.ctx)
        if s.get("init"):
            self.stmt(s["init"])
        if s.get("cv"):
            self.decl(s["cv"])
        c = truth(self.val(s["c"]))
        self.emit("cond", s["l"], c=c)
        s0 = Store(self.store)
        d1, d2 = {}, {}
        if c is not FALSE:
            with self.guard(c):
                d1 = self.stmt(s["a"])
        s1 = self.store
        self.store = Store(s0)
        if s["b"] is not None and c is not TRUE:
            with self.guard(unop("!", c)):
                d2 = self.stmt(s["b"])
        s2 = self.store
        t1 = any(x is TRUE for x in d1.values())
        t2 = any(x is TRUE for x in d2.values())
        if c is TRUE:
            self.store = s1
            return d1
        if c is FALSE:
            self.store = s2
            return d2
        if t1 and not t2:
            self.store = s2
            self.div_store(d1, s1, c)
        elif t2 and not t1:
            self.store = s1
        else:
            self.merge(c, s1, s2)
        div = {}
        for k, x in d1.items():
            div[k] = binop("&&", c, x)
        nc = unop("!", c)
        for k, x in d2.items():
            y = binop("&&", nc, x)
            div[k] = binop("||", div[k], y) if k in div else y
        if t1 and t2:
            # every path diverges
            kinds = set(d1) | set(d2)
            if len(kinds) == 1:
                return {kinds.pop(): TRUE}
            div["ret" if "ret" in kinds else "brk"] = TRUE
        return div

    def div_store(self, d, s, c):
        """remember the store of a path that leaves the current iteration"""
        if "cont" in d or "brk" in d:
            if self.pending:
                self.pending[-1].append((c, s))

    pending = []

    def s_switch(self, s):
        c = self.val(s["c"])
        body = s["body"]
        items = body["s"] if body and body["k"] == "block" else [body]
        segs = []

        def open_case(x):
            vals = []
            while x and x["k"] in ("case", "default"):
                vals.append(self.val(x["v"]) if x["k"] == "case" else None)
                x = x["body"]
            return vals, x
        for x in items:
            if x and x["k"] in ("case", "default"):
                vals, y = open_case(x)
                segs.append((vals, [y]))
            elif segs:
                segs[-1][1].append(x)
        allv = [v for vs, _ in segs for v in vs if v is not None]
        s0 = Store(self.store)
        outs = []
        div = {}
        for i, (vs, body) in enumerate(segs):
            g = FALSE
            for v in vs:
                if v is None:
                    x = TRUE
                    for w in allv:
                        x = binop("&&", x, binop("!=", c, w))
                    g = binop("||", g, x)
                else:
                    g = binop("||", g, binop("==", c, v))
            self.store = Store(s0)
            stmts = list(body)
            j = i
            # fall through
            while not any(x and (x["k"] in ("break", "ret") or (x["k"] == "block" and any(
                    y and y["k"] in ("break", "ret") for y in x["s"]))) for x in segs[j][1]) and j + 1 < len(segs):
                j += 1
                stmts += segs[j][1]
            with self.guard(g):
                d = self.stmt({"k": "block", "l": s["l"], "s": stmts})
            if "ret" in d:
                div["ret"] = binop("||", div.get("ret", FALSE), binop("&&", g, d["ret"]))
            if "cont" in d:
                div["cont"] = binop("||", div.get("cont", FALSE), binop("&&", g, d["cont"]))
            if not (d.get("ret") is TRUE):
                outs.append((g, self.store))
        st = s0 if not any(None in vs for vs, _ in segs) else (outs[-1][1] if outs else s0)
        for g, x in reversed(outs):
            self.merge(g, x, st)
            st = self.store
        self.store = Store(st)
        return div

    def s_case(self, s):
        return self.stmt(s["body"])

    s_default = s_case
    s_label = s_case

    def s_try(self, s):
        d = self.stmt(s["body"])
        s0 = Store(self.store)
        for h in s["h"]:
            with self.guard(mk("exc", s["l"])):
                self.stmt(h)
            self.store = Store(s0)
        return d

    # ---------------------------------------------------------------- loops
    def s_rfor(self, s):
        r = s["range"]
        if r["k"] in ("ref", "mem", "idx", "this") or (r["k"] == "call" and self.is_lv_call(r)):
            c = self.loc(r)
        else:
            c = self.val(r)
        t = r.get("t", "")
        return self.loop_each(s, c, t, s["var"])

    def loop_each(self, s, c, t, var, itervar=None, idxvar=None, body=None):
        u = self.uid(s, "loop")
        key = mk("k", c, u)
        L = Loop(u, "each", key, cont=c, line=s["l"])
        L.contval = self.read(c, agg=True) if c.op == "var" else c
        self.loops_by_uid[u] = L
        self.types.setdefault(c, t)
        tt = bare(t)

        def setup():
            if var is not None:
                l = mk("var", self.fr.uid, var["id"], var["n"])
                self.types[l] = var["t"]
                if is_map(tt):
                    el = pairof(c, key)
                else:
                    el = mk("elem", c, key)
                if var.get("bindings"):
                    for i, b in enumerate(var["bindings"]):
                        self.fr.bind[b["id"]] = self.bound(el, i)
                    return
                if is_ref(var["t"]) and not is_map(tt):
                    self.fr.bind[var["id"]] = el
                else:
                    self.fr.bind[var["id"]] = l
                    if is_map(tt):
                        self.store[l] = el
                    else:
                        self.store_quiet(l, self.read(el, agg=not is_ptr(var["t"])))
            if itervar is not None:
                l = mk("var", self.fr.uid, itervar["id"], itervar["n"])
                self.fr.bind[itervar["id"]] = l
                self.store_quiet(l, mk("iter", c, key))
            if idxvar is not None:
                l = mk("var", self.fr.uid, idxvar["id"], idxvar["n"])
                self.fr.bind[idxvar["id"]] = l
                self.store_quiet(l, key)
        return self.run_loop(s, L, setup, s["body"] if body is None else body)

    def s_for(self, s):
        if self.nolog and self.is_log_for(s):
            self.emit("log", s["l"])
            return {}
        i, c, inc = s["init"], s["c"], s["inc"]
        if i and i["k"] == "decls" and len(i["d"]) == 1 and c is not None and inc is not None:
            d = i["d"][0]
            vid = d["id"]
            if self.is_inc(inc, vid):
                r = self.counted(s, d, lambda: self.val(d["init"]), c, s["body"])
                if r is not None:
                    return r
        # generic
        if i is not None:
            self.stmt(i)
        return self.generic_loop(s, c, s["body"], inc)

    def counted(self, s, d, start, c, body):
        """loop over an iterator or counter that only the increment changes; None when it is none"""
        vid = d["id"]
        neq = self.cond_parts(c, vid)
        if not neq:
            return None
        op, bexp, off = neq
        if "iterator" in d["t"] or "_Rb_tree" in d["t"] or "_Node" in d["t"]:
            iv = start()
            bv = self.val(bexp)
            if op == "!=" and not off and iv.op == "begin" and bv.op == "end" and iv.a[0] is bv.a[0]:
                ct = self.types.get(iv.a[0], "")
                if not ct:
                    ct = "std::map<" if ("_Rb_tree" in d["t"] or "_Node" in d["t"]) else "std::vector<"
                return self.loop_each(s, iv.a[0], ct, None, itervar=d, body=body)
            return None
        if bare(d["t"]) not in SCALAR or self.assigned(body, vid):
            return None
        iv = start()
        bv = self.val(bexp)
        if op in ("<", "!=") and iv is C(0) and bv.op == "size" and not off:
            cont = bv.a[0]
            # a container location if we can see one
            cl = self.size_loc(bexp)
            return self.loop_each(s, cl if cl is not None else cont, "", None, idxvar=d, body=body)
        if op == "<=":
            off -= 1
            op = "<"
        if off:
            bv = binop("-", bv, C(off)) if off > 0 else binop("+", bv, C(-off))
        if op not in ("<", "!="):
            return None
        if self.small(iv, bv) and not has_jump(body):
            l = mk("var", self.fr.uid, d["id"], d["n"])
            self.fr.bind[d["id"]] = l
            keep = self.unrolled
            for x in range(iv.a[0], bv.a[0]):
                self.unrolled = keep + (x,)
                self.store_quiet(l, C(x))
                self.stmt(body)
            self.unrolled = keep
            return {}
        u = self.uid(s, "loop")
        key = mk("i", u)
        L = Loop(u, "range", key, start=iv, bound=bv, line=s["l"])
        self.loops_by_uid[u] = L

        def setup():
            l = mk("var", self.fr.uid, d["id"], d["n"])
            self.fr.bind[d["id"]] = l
            self.store_quiet(l, key)
        return self.run_loop(s, L, setup, body)

    def small(self, a, b):
        return isconst(a) and isconst(b) and isinstance(a.a[0], int) and isinstance(b.a[0], int) and 0 <= b.a[0] - a.a[0] <= 9

    def size_loc(self, e):
        while e["k"] == "cast":
            e = e["e"]
        if e["k"] == "call" and "o" in e and e.get("f", "").split("::")[-1] in ("size", "length"):
            return self.objloc(e["o"])
        if e["k"] in ("ref", ):
            v = self.val(e)
            if v.op == "size":
                return v.a[0]
        return None

    def is_inc(self, e, vid):
        if e["k"] == "un" and e["op"] in ("++", "p++") and e["e"]["k"] == "ref" and e["e"]["id"] == vid:
            return True
        if e["k"] == "call" and e.get("op") == "++" and "o" in e and e["o"]["k"] == "ref" and e["o"]["id"] == vid:
            return True
        if e["k"] == "bin" and e["op"] == "+=" and e["a"].get("id") == vid and e["b"]["k"] == "int" and e["b"]["v"] == 1:
            return True
        return False

    def cond_parts(self, c, vid):
        def isv(e):
            while e["k"] == "cast" or (e["k"] == "ctor" and len(e["a"]) == 1):
                e = e["e"] if e["k"] == "cast" else e["a"][0]
            return e["k"] == "ref" and e["id"] == vid
        if c["k"] == "bin" and c["op"] in ("<", "<=", "!=", ">", ">="):
            a, b, op = c["a"], c["b"], c["op"]
        elif c["k"] == "call" and c.get("op") in ("!=", "<"):
            if "o" in c:
                a, b, op = c["o"], c["a"][0], c["op"]
            else:
                a, b, op = c["a"][0], c["a"][1], c["op"]
        else:
            return None
        def off(e):
            """c when e is v + c"""
            while e["k"] == "cast":
                e = e["e"]
            if isv(e):
                return 0
            if e["k"] == "bin" and e["op"] in ("+", "-"):
                x, y = e["a"], e["b"]
                for p, q in ((x, y), (y, x)) if e["op"] == "+" else ((x, y),):
                    while q["k"] == "cast":
                        q = q["e"]
                    if isv(p) and q["k"] == "int":
                        return int(q["v"]) * (1 if e["op"] == "+" else -1)
            return None
        o = off(a)
        if o is not None and op in ("<", "<=", "!="):
            return op, b, o
        o = off(b)
        if o is not None and op in (">", ">=", "!="):
            return {">": "<", ">=": "<=", "!=": "!="}[op], a, o
        return None

    def assigned(self, s, vid):
        found = [False]

        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                    if x["a"]["k"] == "ref" and x["a"].get("id") == vid:
                        found[0] = True
                if x.get("k") == "un" and x["op"] in ("++", "--", "p++", "p--") and x["e"].get("k") == "ref" and \
                        x["e"].get("id") == vid:
                    found[0] = True
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(s)
        return found[0]

    def s_while(self, s):
        r = self.counted_while(s) if not s.get("cv") else None
        if r is not None:
            return r
        return self.generic_loop(s, s["c"], s["body"], None, cv=s.get("cv"))

    def counted_while(self, s):
        """while (v < n) { ..; ++v; } with v changed nowhere else"""
        b = s["body"]
        if b is None or b["k"] != "block" or not b["s"] or s["c"] is None or has_cont(b):
            return None
        last = b["s"][-1]
        e = last
        while isinstance(e, dict) and e.get("k") in ("expr", "cast"):
            e = e["e"]
        if not isinstance(e, dict):
            return None
        r = e.get("e") if e.get("k") == "un" else e.get("o") if e.get("k") == "call" else e.get("a") if e.get("k") == "bin" else None
        if not isinstance(r, dict) or r.get("k") != "ref" or not self.is_inc(e, r.get("id")):
            return None
        l = self.fr.bind.get(r["id"])
        if l is None or l.op != "var":
            return None
        d = {"id": r["id"], "n": r.get("n", ""), "t": r.get("t", ""), "init": None}
        body = dict(b)
        body["s"] = b["s"][:-1]
        if not self.cond_parts(s["c"], d["id"]):
            return None
        op, bexp, off = self.cond_parts(s["c"], d["id"])
        if self.mentions(bexp, d["id"]):
            return None
        iv = self.read(l)
        rv = self.counted(s, d, lambda: iv, s["c"], body)
        if rv is None:
            return None
        bv = self.val(bexp)
        n = binop("-", bv, C(off)) if off else bv
        if op == "<=":
            n = binop("+", n, C(1))
        end = n if op == "!=" or iv is C(0) and n.op in ("size", "end") else mk("op", "max", iv, n)
        if has_jump(body):
            end = mk("opaque", "counter", l)
        self.fr.bind[r["id"]] = l
        self.store_quiet(l, end)
        return rv

    def mentions(self, e, vid):
        st = [e]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get("k") == "ref" and x.get("id") == vid:
                    return True
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)
        return False

    def s_do(self, s):
        return self.generic_loop(s, s["c"], s["body"], None, post=True)

    def generic_loop(self, s, c, body, inc, cv=None, post=False):
        u = self.uid(s, "loop")
        L = Loop(u, "while", mk("i", u), line=s["l"])
        self.loops_by_uid[u] = L

        def run():
            if not post:
                if cv:
                    self.decl(cv)
                cond = truth(self.val(c)) if c is not None else TRUE
                L.cond = cond
                self.emit("loopcond", s["l"], c=cond)
                self.ctx.append(("g", cond))
            n = len(self.ctx)
            self.pending.append([])
            d = self.stmt(body)
            for cnd, st in self.pending.pop():
                self.merge(cnd, st, self.store)
            del self.ctx[n:]
            if inc is not None:
                self.val(inc)
            if post:
                L.cond = truth(self.val(c))
            return d
        return self.run_loop(s, L, lambda: None, None, run)

    def run_loop(self, s, L, setup, body, run=None):
        if run is None:
            def run():
                self.pending.append([])
                d = self.stmt(body)
                for cnd, st in self.pending.pop():
                    self.merge(cnd, st, self.store)
                return d
        before = Store(self.store)
        n = len(self.ctx)
        havoc = dict(self.havocs.get(L.uid, ()))
        grown = dict(self.grown.get(L.uid, ()))
        cl0 = self.closures

        def start():
            self.store = Store(before)
            for l in grown:
                self.store.kill_under(l)
                self.store[l] = mk("lam", L.uid, l)
            for l in havoc:
                self.store.kill_under(l)
                self.store[l] = mk("lam", L.uid, l)
            setup()

        fresh = []

        def percase(key):
            if L.key is not None and contains(key, L.key):
                return True
            return any(x.op in ("lam", "k", "i", "filled", "new") for x in subterms(key))

        def changed():
            base = dict(before)
            for l in grown:
                base[l] = mk("lam", L.uid, l)
            for l in havoc:
                base[l] = mk("lam", L.uid, l)
            out = []
            for k, v in self.store.items():
                if base.get(k) is v or k in havoc or k in grown:
                    continue
                r = root(k)
                if r.op == "var":
                    if r not in before and not before.under(r) and r not in preexist:
                        continue
                if k not in base:
                    b, top = k, None
                    while b.op in ("fld", "elem"):
                        if b.op == "elem" and b.a[0] in base and base[b.a[0]].op in ("empty", "lam", "filled"):
                            top = b
                        if b.op == "elem" and L.key is not None and b.a[0] in base and contains(b.a[1], L.key):
                            break
                        b = b.a[0]
                    if top is not None and top.a[0] not in havoc:
                        if top.a[0] not in grown:
                            fresh.append(top.a[0])
                        if percase(top.a[1]):
                            continue
                if L.key is not None and contains(k, L.key):
                    continue
                if True:
                    if k not in base and r.op == "var" and k.op == "var":
                        # declared before the loop without an initialiser?
                        if k not in preexist:
                            continue
                    out.append(k)
            return out
        preexist = set(v for f in self.frames for v in f.bind.values() if v.op == "var")
        p = self.fr.parent
        while p is not None:
            preexist |= set(v for v in p.bind.values() if v.op == "var")
            p = p.parent
        # variables bound inside the body during the dry run must not count
        nev, sq = len(self.events), self.seq
        for it in range(7):
            nrets = len(self.fr.rets)
            del self.events[nev:]
            self.seq = sq
            start()
            self.ctx.append(("l", L))
            self.emit("loop", s["l"], loop=L)
            d = run()
            self.emit("endloop", s["l"], loop=L)
            del self.ctx[n:]
            ch = changed()
            if not (ch or fresh) or it == 6:
                break
            for k in fresh:
                grown[k] = True
            del fresh[:]
            del self.fr.rets[nrets:]
            # drop locations nested in another changed location
            for k in ch:
                havoc[k] = True
            for k in list(havoc):
                b = k
                while b.op in ("fld", "elem"):
                    b = b.a[0]
                    if b in havoc:
                        havoc.pop(k, None)
                        break
            for k in list(grown):
                b = k
                while b.op in ("fld", "elem"):
                    if b in havoc:
                        grown.pop(k, None)
                        break
                    b = b.a[0]
                if b in havoc:
                    grown.pop(k, None)
        self.havocs[L.uid] = dict(havoc)
        self.grown[L.uid] = dict(grown)
        after = self.store
        out = Store(before)
        for l in grown:
            init = self.default(l, before)
            out.kill_under(l)
            out[l] = mk("filled", L.term(), init)
            for k in after.under(l):
                top = k
                while top.a[0] is not l:
                    top = top.a[0]
                if top.op == "elem":
                    out[k] = after[k]
        for k in list(out):
            b = k
            while b.op in ("fld", "elem"):
                b = b.a[0]
                if b in havoc:
                    out.pop(k, None)
                    break
        for l in havoc:
            init = self.default(l, before)
            if l in before or True:
                init = self.default_agg(l, before)
            head = mk("lam", L.uid, l)
            stepv = self.default_agg(l, after)
            L.vars[l] = (init, head, stepv)
            out[l] = self.fix(L, l, init, head, stepv)
        for k, v in after.items():
            if k not in out and k not in grown and L.key is not None and contains(k, L.key) and root(k).op != "none":
                r = root(k)
                if r.op == "var" and r not in preexist and r not in before:
                    continue
                b, skip = k, False
                while b.op in ("fld", "elem"):
                    b = b.a[0]
                    if b in havoc:
                        skip = True
                if not skip:
                    out[k] = v
        self.store = out
        div = {}
        if "ret" in d:
            div["ret"] = mk("retin", L.uid)
        return div

    def default_agg(self, l, s):
        save, self.store = self.store, s
        try:
            return self.read(l, agg=not is_ptr(self.types.get(l, "")))
        finally:
            self.store = save

    def numbered(self, L, head, stepv):
        """the length of a list extended by one entry in each pass is the number of the pass"""
        if not (L.kind == "each" and L.cont is not None and "vector" in self.types.get(L.cont, "") or
                L.kind == "range" and L.start is C(0) and L.step == 1):
            return stepv
        n = mk("size", head)
        p, g = stepv, None
        if p.op == "ite" and not contains(p.a[0], L.key) and not contains(p.a[0], head):
            p = p.a[1] if p.a[2] is head else p.a[2] if p.a[1] is head else p
        if p.op != "push" or p.a[0] is not head or not contains(p.a[1], n) or L.exits:
            return stepv
        q = mk("push", head, subst(p.a[1], {n: L.key}))
        return q if p is stepv else mk("ite", stepv.a[0], *[q if x is p else x for x in stepv.a[1:]])

    def fix(self, L, l, init, head, stepv):
        """closed form of a loop-carried variable when one is recognised"""
        if stepv is head:
            return init
        t = L.term()
        if init is EMPTY and L.key is not None:
            stepv = self.numbered(L, head, stepv)
            if stepv.op == "pushfront" and stepv.a[0] is head and not contains(stepv.a[1], head):
                return mk("reversed", mk("collect", t, init, stepv.a[1], TRUE))
            if stepv.op == "ite":
                for c, a, b in ((stepv.a[0], stepv.a[1], stepv.a[2]), (unop("!", stepv.a[0]), stepv.a[2], stepv.a[1])):
                    if b is head and a.op == "pushfront" and a.a[0] is head and not contains(c, head) and not contains(a.a[1], head):
                        return mk("reversed", mk("collect", t, init, a.a[1], c))
        if stepv.op == "push" and stepv.a[0] is head and not contains(stepv.a[1], head):
            return mk("collect", t, init, stepv.a[1], TRUE)
        if stepv.op == "ite":
            c, a, b = stepv.a
            if b is head and a.op == "push" and a.a[0] is head and not contains(c, head) and not contains(a.a[1], head):
                return mk("collect", t, init, a.a[1], c)
            if a is head and b.op == "push" and b.a[0] is head and not contains(c, head) and not contains(b.a[1], head):
                return mk("collect", t, init, b.a[1], unop("!", c))
        if stepv.op == "op" and stepv.a[0] == "+" and len(stepv.a) == 3:
            x, y = stepv.a[1], stepv.a[2]
            if x is head and not contains(y, head):
                return mk("sum", t, init, y, TRUE)
            if y is head and not contains(x, head):
                return mk("sum", t, init, x, TRUE)
        if not contains(stepv, head):
            return mk("lastof", t, init, stepv)
        return mk("fix", t, init, head, stepv)

    # ----------------------------------------------------------------- entry
    def run(self, fn, this=None, args=None):
        fr = Frame(fn, self.uid(), this if this is not None else mk("this"))
        self.entry = fr
        for i, p in enumerate(fn["params"]):
            if args and i < len(args) and args[i] is not None:
                fr.bind[p["id"]] = args[i]
                continue
            l = mk("arg", p["n"], i)
            self.types[l] = p["t"]
            fr.bind[p["id"]] = l
        self.inlined.add(fn["u"])
        self.ret = self.run_body(fr, fn["body"], fn["l"], fn)
        return self


class _Guard:
    def __init__(self, it, c):
        self.it, self.c = it, c

    def __enter__(self):
        self.n = len(self.it.ctx)
        for g in conj([self.c]):
            self.it.ctx.append(("g", g))

    def __exit__(self, *a):
        del self.it.ctx[self.n:]
        return False


def analyse(prog, name, n=None, **kw):
    fn = prog.fn(name, n)
    return Interp(prog, **kw).run(fn)


def dump(it, prog, kinds=None):
    for e in it.events:
        if kinds and e.kind not in kinds:
            continue
        ind = "  " * len(e.loops())
        print("%4d %s%s %s   | %s" % (e.line, ind, e.kind,
              " ".join("%s=%s" % (k, str(v)[:150]) for k, v in e.d.items() if k not in ("expr", "locs", "m", "t", "via")),
              " & ".join(str(g)[:60] for g in e.guards()[-3:])))


if __name__ == "__main__":
    from . import facts
    P = facts.load()
    it = analyse(P, sys.argv[1])
    dump(it, P, set(sys.argv[2].split(",")) if len(sys.argv) > 2 else None)
    print("ret", it.ret)
    print(it.steps, "statements")
