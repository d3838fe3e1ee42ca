"""Cost functors composed with the place that builds them.

The functor's operator() is evaluated once; its fields and parameter blocks are
then replaced by what the place that adds the residual block passes.  Each
combination of camera model and flags gives a case: the chain of poses the
point goes through, and the two residuals as formulas.
"""
from .core import *
from .poly import *
from .posetypes import Mismatch
from .views import *

ROT = "rotpt"


class Case:
    def __init__(self, **k):
        self.__dict__.update(k)


class Residual:
    def __init__(self, c, V, s):
        self.c, self.V, self.s = c, V, s
        self.why = None
        self.cases = []
        self.op = None
        for f in c.prog.by_name.get(s.cls + "::operator()", []):
            if "Jet" not in str(f["params"][0]["t"]):
                self.op = f
        if self.op is None:
            self.why = "no evaluation of %s with numbers" % s.cls
            return
        self.it = c.it(self.op, tag="res")
        ps = self.op["params"]
        self.names = [p["n"] for p in ps]
        self.this = self.it.entry.this if getattr(self.it.entry, "this", None) is not None else mk("this")
        out = mk("arg", self.names[-1], len(ps) - 1)
        self.r = [self.it.store.get(mk("elem", out, C(i))) for i in range(2)]
        self.blocks = [mk("arg", n, i) for i, n in enumerate(self.names[:-1])]
        self.build()

    def fields(self, t):
        return {x for x in subterms(t) if x.op == "fld" and x.a[0] is self.this}

    def build(self):
        s = self.s
        flags, model = {}, None
        self.missing = [i for i in range(2) if self.r[i] is None]
        if len(self.missing) == 2:
            return
        conds = set()
        for r in self.r:
            if r is not None:
                for x in subterms(r):
                    if x.op == "ite":
                        conds |= self.fields(x.a[0])
        rec = {f["n"]: f["t"] for f in (self.c.prog.records.get(s.cls) or {}).get("fields", [])}
        conds = {f for f in conds if rec.get(f.a[1], "bool").replace("const ", "") in ("bool", "int", "unsigned int")}
        for f in conds:
            v = s.fields.get(f.a[1])
            if v is None:
                self.why = "field %s of the residual is not set" % f.a[1]
                return
            if v.op == "fld" and v.a[1] == "distortion_model_" or v.op == "arg" and "distortion" in str(v.a[0]) or f.a[1].startswith("distortion"):
                model = f
            else:
                flags[f] = v
        self.flags, self.model = flags, model
        combos = [{}]
        for f, v in flags.items():
            nxt = []
            for d in combos:
                for b in ((True, False) if not isconst(v) else (bool(v.a[0]),)):
                    e = dict(d)
                    e[f] = C(b)
                    nxt.append(e)
            combos = nxt
        mv = s.fields.get(model.a[1]) if model is not None else None
        models = [0, 1] if mv is None or not isconst(mv) else [mv.a[0]]
        for d in combos:
            gs = [flags[f] if v.a[0] else unop("!", flags[f]) for f, v in d.items() if not isconst(flags[f])]
            for m in models:
                e = dict(d)
                if model is not None:
                    e[model] = C(m)
                self.cases.append(self.case(e, gs, m))

    def case(self, env, guards, model):
        K = Case(guards=guards, model=model, env=env, status=None, msg="", chain=[], r=None, wrong=None)
        sub = {mk("fld", self.this, n): v for n, v in self.s.fields.items() if mk("fld", self.this, n) not in env}
        for b, p in zip(self.blocks, self.s.params):
            sub[b] = p
        K.raw = []
        for r in self.r:
            if r is None:
                K.wrong = "a residual is not computed"
                return K
            x = subst(r, env)
            x = self.blocksub(x, sub)
            K.raw.append(x)
        K.small = {}
        conds = {x.a[0] for r in K.raw for x in subterms(r) if x.op == "ite"}
        big, tiny = {}, {}
        for g in conds:
            q = self.nearzero(g)
            if q is None:
                K.msg = "condition %s" % show(g)[:120]
                return K
            big[g], tiny[g] = C(q[0]), C(not q[0])
            if q[1] > 1e-3:
                K.wrong = "the formula changes at %g, far from the optical axis" % q[1]
        K.r = [subst(r, big) for r in K.raw]
        K.tiny = [subst(r, tiny) for r in K.raw] if tiny else None
        if any(x.op == "undef" or x.op == "elem" and x.a[0].op == "arg" and x.a[0].a[0] == self.names[-1] for r in K.r for x in subterms(r)):
            K.wrong = "no residual is computed for camera model %d" % model
            return K
        self.chainof(K)
        return K

    def blocksub(self, x, sub):
        return subst(x, sub)

    def nearzero(self, g):
        """(value of the condition away from zero, bound) when the condition compares with a small constant"""
        if g.op == "op" and g.a[0] in ("<", "<=") and len(g.a) == 3:
            a, b = g.a[1], g.a[2]
            if isconst(a) and isinstance(a.a[0], (int, float)):
                return True, float(a.a[0])
            if isconst(b) and isinstance(b.a[0], (int, float)):
                return False, float(b.a[0])
        if g.op == "op" and g.a[0] in ("==", "!=") and len(g.a) == 3 and any(isconst(x) and x.a[0] == 0 for x in g.a[1:]):
            return g.a[0] == "!=", 0.0
        return None

    # ------------------------------------------------------------------ chain
    def chainof(self, K):
        rots = {}
        for r in K.r:
            for x in subterms(r):
                if x.op == ROT:
                    rots.setdefault(x.a[1:], set()).add(x.a[0])
        order = sorted(rots, key=lambda k: sum(1 for q in subterms(mk("t", *k)) if q.op == ROT))
        N = Norm()
        X = None
        for k in order:
            rv, pv = k[:3], k[3:]
            b = self.block(rv, (0, 1, 2))
            if b is None:
                K.msg = "rotation of %s" % show(rv[0])[:80]
                return
            if b == "order":
                K.wrong = "the rotation parameters are used in another order"
                return
            if X is None:
                K.p3 = self.xyz(pv)
                if K.p3 is None:
                    K.msg = "point"
                    return
                if K.p3 == "order":
                    K.wrong = "the coordinates of the point are used in another order"
                    return
            else:
                if not all(N(a).eq(b2) for a, b2 in zip(pv, X)):
                    # some other chain
                    K.wrong = "the point rotated by %s is not the point moved by the poses before it" % show(b)[-80:]
                    return
            K.chain.append(b)
            X = [N(mk(ROT, i, *k)) + N(mk("elem", b, C(3 + i))) for i in range(3)]
        if X is None:
            K.msg = "the point is not moved by any pose"
            return
        K.X = X
        self.formula(K, N)

    def block(self, cs, idx):
        bs = {x.a[0] for x in cs if x.op == "elem"}
        if len(bs) != 1 or any(x.op != "elem" for x in cs):
            return None
        if tuple(x.a[1].a[0] if isconst(x.a[1]) else None for x in cs) != idx:
            return "order"
        return next(iter(bs))

    def xyz(self, cs):
        cs = [self.uncast(x) for x in cs]
        if any(x.op != "fld" or x.a[1] not in "xyz" for x in cs) or len({x.a[0] for x in cs}) != 1:
            return None
        return cs[0].a[0] if [x.a[1] for x in cs] == ["x", "y", "z"] else "order"

    def uncast(self, x):
        while x.op in ("cast", "trunc") or x.op == "ctor" and len(x.a) == 2 and isinstance(x.a[1], Term):
            x = x.a[-1]
        return x

    # ---------------------------------------------------------------- formula
    def formula(self, K, N):
        leaves = {x for r in K.r for x in tops(r)}
        ints = {x.a[0] for x in leaves if x.op == "elem" and x.a[0].op == "fld" and x.a[0].a[1] == "intrinsics_"}
        if not ints:
            K.msg = "intrinsic parameters"
            return
        pts = {x.a[0] for x in leaves if x.op == "fld" and x.a[1] in ("x", "y", "z")}
        K.ints = ints
        if len(ints) != 1:
            K.msg = "several intrinsics"
            return
        I = next(iter(ints))
        K.cam = I.a[0]
        if len(pts) != 1:
            K.msg = "image point"
            return
        K.p2 = next(iter(pts))
        i = lambda j: N(mk("elem", I, C(j)))
        X, Y, Z = K.X
        x, y = X.div(Z), Y.div(Z)
        one = num(1)
        r2 = x * x + y * y
        if K.model == 0:
            k1, k2, p1, p2, k3 = i(4), i(5), i(6), i(7), i(8)
            rad = one + k1 * r2 + k2 * r2 * r2 + k3 * r2 * r2 * r2
            xd = x * rad + num(2) * p1 * x * y + p2 * (r2 + num(2) * x * x)
            yd = y * rad + p1 * (r2 + num(2) * y * y) + num(2) * p2 * x * y
        else:
            r = N.fn("sqrt", r2)
            th = N.fn("atan", r)
            t2 = th * th
            d = th * (one + i(4) * t2 + i(5) * t2 * t2 + i(6) * t2 * t2 * t2 + i(7) * t2 * t2 * t2 * t2)
            xd, yd = (x * d).div(r), (y * d).div(r)
        U, W = N(mk("fld", K.p2, "x")), N(mk("fld", K.p2, "y"))
        want = [i(0) * xd + i(2) - U, i(1) * yd + i(3) - W]
        got = [N(self.clean(r)) for r in K.r]
        bad = [n for n in (0, 1) if not got[n].eq(want[n])]
        if not bad:
            K.status = True
        else:
            known = {a for q in want for a in self.flat(q)}
            new = {a for q in got for a in self.flat(q)} - known
            odd = [a for a in new if a.op not in ("elem", "fld", ROT, "fn")]
            if odd:
                K.msg = "formula with %s" % show(odd[0])[:100]
                return
            K.status = False
            K.wrong = "the %s residual is not the %s projection minus the detected point" % (
                " and the ".join("xy"[n] for n in bad), ("Brown", "Kannala")[K.model])
            return
        if K.tiny:
            lim = [i(0) * x + i(2) - U, i(1) * y + i(3) - W]
            g2 = [N(self.clean(r)) for r in K.tiny]
            if not all(a.eq(b) for a, b in zip(g2, lim)):
                K.status = False
                K.wrong = "near the optical axis the residual is not that of the undistorted projection"

    def clean(self, r):
        m = {}
        for x in subterms(r):
            if x.op in ("trunc", "cast") or x.op == "ctor" and len(x.a) == 2 and isinstance(x.a[1], Term):
                m[x] = self.uncast(x)
        return subst(r, m) if m else r

    def flat(self, q):
        r = set()
        todo = list(q.atoms())
        while todo:
            a = todo.pop()
            if a in r:
                continue
            r.add(a)
            if a.op == "fn":
                todo += [x for x in subterms(a) if x.op in ("elem", "fld", ROT, "call", "ite") and x is not a]
        return r


def tops(t):
    """leaves of a formula; what a rotated point is made of is not looked at"""
    if t.op in ("elem", "fld", ROT):
        yield t
        return
    for x in t.a:
        if isinstance(x, Term):
            yield from tops(x)
