"""Where image points, model points, poses and camera models meet.

A list is described by its element at a generic position (at), a point by the corner it shows (corner2/corner3): the observation
that saw it and the position in the parallel lists of that observation.
"""
from .engine import *
from .posetypes import *
from . import poly

# calls with a fixed camera model: (model, points 3D, points 2D, R, t, K, D); -1: none
FIXED = {
    "cv::projectPoints": (0, 0, -1, 1, 2, 3, 4), "cv::fisheye::projectPoints": (1, 0, -1, 2, 3, 4, 5),
    "cv::solvePnP": (0, 0, 1, 4, 5, 2, 3), "cv::solvePnPRansac": (0, 0, 1, 4, 5, 2, 3), "cv::solvePnPGeneric": (0, 0, 1, 4, 5, 2, 3),
    "cv::fisheye::solvePnP": (1, 0, 1, 4, 5, 2, 3),
    "cv::undistortPoints": (0, -1, 0, -1, -1, 2, 3), "cv::fisheye::undistortPoints": (1, -1, 0, -1, -1, 2, 3),
    "cv::calibrateCamera": (0, 0, 1, -1, -1, 3, 4), "cv::fisheye::calibrate": (1, 0, 1, -1, -1, 3, 4),
}
PROJ = {"cv::projectPoints": 5, "cv::fisheye::projectPoints": 1, "McCalib::projectPointsWithDistortion": 6}
PNP = ("McCalib::ransacP3PDistortion", "McCalib::ransacP3P", "cv::solvePnP", "cv::solvePnPRansac", "cv::fisheye::solvePnP")
# selected by a parameter: (points 3D, points 2D, R, t, K, D, selector)
SELECT = {"McCalib::projectPointsWithDistortion": (0, -1, 1, 2, 3, 4, 5), "McCalib::ransacP3PDistortion": (0, 1, 4, 5, 2, 3, 8)}
P = mk("pos")
ARGS = mk("args")          # the lists a helper gets as arguments: one corner per position


def isbot(t):
    while t.op in ("elem", "fld") and t.a:
        t = t.a[0]
    return t.op == "bot"


def strip(t):
    """what is read, given that reading it is possible: conditional null pointers removed"""
    memo = {}

    def go(x):
        if not isinstance(x, Term):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x in memo:
            return memo[x]
        r = x
        if x.op == "ite" and (x.a[1] is NULL or x.a[2] is NULL):
            r = go(x.a[2] if x.a[1] is NULL else x.a[1])
        elif x.op == "ite" and (isbot(x.a[1]) or isbot(x.a[2])):
            r = go(x.a[2] if isbot(x.a[1]) else x.a[1])
        elif x.a:
            a = tuple(go(y) for y in x.a)
            r = x if a == x.a else rebuild(x.op, a)
        memo[x] = r
        return r
    return go(t)


class Site:
    def __init__(self, **k):
        self.__dict__.update(k)


class Views:
    def __init__(self, c, fn, it, pairs=None):
        self.c, self.fn, self.it = c, fn, it
        self.F = Frames(c, fn, it, pairs or {})
        self.memo = {}

    # ------------------------------------------------------------------ sites
    def sites(self):
        for e in self.it.events:
            if e.kind not in ("call", "icall"):
                continue
            f = e.d.get("f")
            if f in SELECT:
                p3, p2, r, t, k, d, m = SELECT[f]
                model = e.args[m] if m < len(e.args) else None
                g = lambda i: e.args[i] if 0 <= i < len(e.args) else None
                yield Site(e=e, f=f, kind="project" if p2 < 0 else "pnp", fixed=None, model=model, p3=g(p3), p2=g(p2), R=g(r), t=g(t), K=g(k), D=g(d))
            elif f in FIXED or f == "McCalib::ransacP3P":
                m, p3, p2, r, t, k, d = FIXED.get(f, FIXED["cv::solvePnP"] if f != "McCalib::ransacP3P" else None) if f in FIXED else (0, 0, 1, 4, 5, 2, 3)
                g = lambda i: e.args[i] if 0 <= i < len(e.args) else None
                kind = "project" if f in PROJ else "undistort" if "undistort" in f else "calibrate" if "calibrate" in f else "pnp"
                yield Site(e=e, f=f, kind=kind, fixed=m, model=None, p3=g(p3), p2=g(p2), R=g(r), t=g(t), K=g(k), D=g(d))
            elif f == "ceres::Problem::AddResidualBlock":
                s = self.residual(e)
                if s is not None:
                    yield s

    def residual(self, e):
        cost = e.args[0] if e.args else None
        if cost is None or cost.op != "new":
            return None
        functor, fields = None, {}
        for x in self.it.events:
            if x is e:
                break
            if x.kind == "ctor" and x.d.get("t") == cost.a[0] and x.d.get("args") and x.args[0].op == "new":
                functor = x.args[0]
        if functor is None:
            return None
        for x in self.it.events:
            if x is e:
                break
            if x.kind == "write" and x.loc.op == "fld" and x.loc.a[0] is functor:
                fields[x.loc.a[1]] = x.val
        return Site(e=e, f=e.f, kind="residual", cost=cost, functor=functor, cls=functor.a[0], fields=fields,
                    params=[self.block(a) for a in e.args[2:]])

    def block(self, a):
        if a.op == "addr0":
            return a.a[0]
        if a.op == "list" and len(a.a) == 1:
            return self.block(a.a[0])
        return a

    # ------------------------------------------------------------------ lists
    def at(self, l, p=P, d=0):
        """element at position p of a list; None when unknown"""
        d0 = d
        if l is None or d > 12:
            return None
        op = l.op
        if op in ("fld", "elem", "arg", "var") or op == "lam":
            return mk("elem", l, p)
        if op == "push" and l.a[0] is EMPTY:
            return l.a[1]
        if op in ("list", "vec") and op == "list":
            return None
        if op == "collect":
            L, init, item, guard = l.a
            if init is not EMPTY and init.op not in ("mat0",):
                return None
            return self.inloop(L, item, guard, p, l)
        if op == "reversed":
            return self.at(l.a[0], mk("rpos", l.a[0], p), d + 1)
        if op == "filled":
            return None
        if op == "agg":
            base, ents = l.a[0], l.a[1]
            # every position assigned in a loop over all positions
            ks = {path[0][1] for path, v in ents if path and path[0][0] == "e" and isinstance(path[0][1], Term) and path[0][1].op in ("k", "i")}
            if len(ks) != 1 or any(not path or path[0][0] != "e" for path, v in ents):
                return None
            k = next(iter(ks))
            if len(ents) == 1 and len(ents[0][0]) == 1:
                return subst(ents[0][1], {k: p})
            d = {path[1][1]: v for path, v in ents if len(path) == 2 and path[1][0] == "f"}
            if len(d) == len(ents) and len(d) == 1 and set(d) < {"x", "y"}:
                b = self.at(base, p, d0 + 1)
                if b is None:
                    b = mk("elem", base, p) if base.op in ("ite", "out") else None
                if b is None:
                    return None
                for n in {"x", "y"} - set(d):
                    d[n] = mk("fld", b, n)
                return mk("point", subst(d["x"], {k: p}), subst(d["y"], {k: p}))
            if len(d) == len(ents) and set(d) == {"x", "y"}:
                return mk("point", subst(d["x"], {k: p}), subst(d["y"], {k: p}))
            return None
        if op == "ite":
            a, b = self.at(l.a[1], p, d + 1), self.at(l.a[2], p, d + 1)
            return a if a is b else None
        if op == "out":
            if l.a[0] in PROJ and self.int(l.a[1]) == PROJ[l.a[0]]:
                return mk("elem", l, p)
            if "undistortPoints" in str(l.a[0]):
                return mk("elem", l, p)
            return None
        if op == "call" and l.a[0] == "McCalib::transform3DPts":
            x = self.at(l.a[1], p, d + 1)
            return None if x is None else mk("xform", l.a[2], l.a[3], x)
        return None

    def int(self, x):
        return x.a[0] if isinstance(x, Term) and x.op in ("const", "C") else x.a[0] if isinstance(x, Term) and isconst(x) else x

    def inloop(self, L, item, guard, p, whole):
        lp = self.it.loops_by_uid.get(L.a[0])
        key = L.a[1]
        if lp is None or lp.has_break:
            return None
        if guard is not TRUE and guard is not None and self.depends(guard, key):
            # filtered: positions of the result correspond to selected positions
            p2 = mk("sel", L, guard, p)
            return self.put(item, key, p2)
        if lp.kind == "each" and key.op == "k" or lp.kind == "range" and lp.start is C(0):
            return self.put(item, key, p)
        return None

    def put(self, item, key, p):
        return subst(item, {key: p})

    def depends(self, g, key):
        return contains(g, key)

    # ----------------------------------------------------------------- corners
    LISTS = {"pts_2d_": 1, "charuco_id_": 1, "pts_id_": 1}

    def lists(self, b):
        """(owner, field) of an observation's list"""
        l = self.F.loc(b)
        if l.op == "fld" and l.a[1] in ("pts_2d_", "charuco_id_", "pts_id_"):
            t = self.F.ty(l.a[0])
            if t in (BO, OO, "") or True:
                return self.F.canon(l.a[0]), l.a[1]
        return None

    def corner2(self, x):
        """corner shown by an image point: (observation, position)"""
        if x is None:
            return None
        x = strip(x)
        if x.op == "elem":
            if x.a[0].op == "arg" and "Point" in self.argtype(x.a[0]):
                return ARGS, x.a[1]
            l = self.lists(x.a[0])
            if l and l[1] == "pts_2d_":
                return l[0], self.F.canon(x.a[1])
            u = x.a[0]
            if u.op == "out" and "undistortPoints" in str(u.a[0]):
                return self.corner2(self.at(u.a[2], x.a[1]))
            if u.op == "out" and u.a[0] in PROJ:
                src = u.a[2:]
                i = SELECT[u.a[0]][0] if u.a[0] in SELECT else FIXED[u.a[0]][1]
                return self.corner3(self.at(src[i], x.a[1]))
        if x.op == "fld" and x.a[1] in ("x", "y"):
            return self.corner2(x.a[0])
        if x.op == "point" and len(x.a) == 2:
            ps = {y.a[0] for z in x.a for y in subterms(z) if y.op == "fld" and y.a[1] in ("x", "y") and y.a[0].op == "elem"}
            cs = {self.corner2(y) for y in ps}
            if len(cs) == 1:
                return next(iter(cs))
        return None

    def corner3(self, x):
        """corner of which the term is the model point: (observation, position); the model has to be the one the ids refer to"""
        if x is None:
            return None
        x = strip(x)
        if x.op == "elem" and x.a[0].op == "arg" and "Point" in self.argtype(x.a[0]):
            return ARGS, x.a[1]
        if x.op == "xform":
            return self.corner3(x.a[2])
        r = self.rigid(x)
        if r is not None:
            return self.corner3(r[2])
        if x.op == "ite":
            a, b = self.corner3(x.a[1]), self.corner3(x.a[2])
            return a or b if (a is None or b is None or a == b) else None
        if x.op != "elem":
            return None
        l = self.F.loc(x.a[0])
        if l.op != "fld" or l.a[1] != "pts_3d_":
            return None
        m, i = l.a[0], x.a[1]
        own = self.idof(i)
        if own is not None:
            o, q, what = own
            return o, q
        return None

    def argtype(self, a):
        ps = self.it.entry.fn["params"]
        n = a.a[1]
        n = n if isinstance(n, int) else self.int(n)
        return str(ps[n].get("t", "")) if isinstance(n, int) and n < len(ps) else ""

    def idof(self, i):
        """(observation, position, kind) of an index into a model's points"""
        if i.op == "elem":
            l = self.lists(i.a[0])
            if l and l[1] in ("charuco_id_", "pts_id_"):
                return l[0], self.F.canon(i.a[1]), l[1]
            # point of the object -> point of its board
        if i.op == "fld" and i.a[1] == "second" and i.a[0].op == "elem":
            b = self.F.loc(i.a[0].a[0])
            if b.op == "fld" and b.a[1] == "pts_obj_2_board_":
                r = self.idof(i.a[0].a[1])
                if r and r[2] == "pts_id_":
                    return r[0], r[1], "board of object"
        return None

    def model3(self, x):
        """(model term, index term) of a model point"""
        if x is None:
            return None
        if x.op == "xform":
            return self.model3(x.a[2])
        r = self.rigid(x)
        if r is not None:
            return self.model3(r[2])
        if x.op == "ite":
            a, b = self.model3(x.a[1]), self.model3(x.a[2])
            return a or b if (a is None or b is None or a == b) else None
        if x.op == "elem":
            l = self.F.loc(x.a[0])
            if l.op == "fld" and l.a[1] == "pts_3d_":
                return l.a[0], x.a[1]
        return None

    # ------------------------------------------------------------------- rigid
    def rigid(self, x):
        """(R, t, point) when the point is R * point + t"""
        if x in self.memo:
            return self.memo[x]
        r = self.memo[x] = self.rigid1(x) if x.op == "point" and len(x.a) == 3 else None
        return r

    def rigid1(self, x):
        rows, ts, pt, rot = [], [], set(), set()
        for i, c in enumerate(x.a):
            coef, rest = {}, []
            for term in self.sum(c):
                fs = self.factors(term)
                cs = [f for f in fs if f.op == "fld" and f.a[1] in ("x", "y", "z")]
                if len(cs) == 1 and len(fs) == 2:
                    other = fs[0] if fs[1] is cs[0] else fs[1]
                    j = "xyz".index(cs[0].a[1])
                    if j in coef:
                        return None
                    coef[j] = other
                    pt.add(cs[0].a[0])
                else:
                    rest.append(term)
            if set(coef) != {0, 1, 2} or len(rest) != 1:
                return None
            rows.append([coef[0], coef[1], coef[2]])
            ts.append(rest[0])
        if len(pt) != 1:
            return None
        for i in range(3):
            for j in range(3):
                e = rows[i][j]
                if e.op != "elem" or e.a[1].op != "ij":
                    return None
                rot.add((e.a[0], tuple(self.int(q) for q in e.a[1].a) == (i, j)))
        if len({r for r, _ in rot}) != 1:
            return None
        if any(not ok for _, ok in rot):
            return "bad", "the rotation's entries are used at other places", next(iter(pt))
        return next(iter(rot))[0], mk("v3", *ts), next(iter(pt))

    def sum(self, c):
        while c.op in ("cast",) or c.op == "call" and len(c.a) == 2 and "cast" in str(c.a[0]):
            c = c.a[-1]
        if c.op == "op" and c.a[0] == "+":
            for x in c.a[1:]:
                yield from self.sum(x)
        else:
            yield c

    def factors(self, c):
        if c.op == "op" and c.a[0] == "*":
            r = []
            for x in c.a[1:]:
                r += self.factors(x)
            return r
        return [c]

    # ------------------------------------------------------------------ cameras
    def cameras(self, t):
        """cameras whose intrinsics or model occur in a term"""
        r = set()
        for x in subterms(t):
            if x.op == "fld" and x.a[1] in ("intrinsics_",):
                r.add(self.camid(x.a[0]))
        return r

    def camid(self, cam):
        b = self.F.canon(cam)
        if b.op == "elem" and b.a[0].op == "fld" and b.a[0].a[1] == "cams_" and b.a[0].a[0] is CAL:
            return ("C", b.a[1])
        if b.op == "this":
            return ("C", self.F.canon(mk("fld", b, "cam_idx_")))
        return ("C", self.F.canon(mk("fld", cam, "cam_idx_")))

    def modelcam(self, m):
        if m is not None and m.op == "fld" and m.a[1] == "distortion_model_":
            return self.camid(m.a[0])
        return None

    def selectors(self, guards):
        """model fields tested by conditions"""
        r = set()
        for g in guards:
            for x in subterms(g):
                if x.op == "fld" and x.a[1] == "distortion_model_":
                    r.add(x)
                elif x.op == "arg" and "distortion" in str(x.a[0]):
                    r.add(x)
        return r

    def possible(self, guards, sel, v):
        """can the conditions hold when the selector has the value"""
        from .core import ev3
        for g in guards:
            h = subst(g, {sel: C(v)})
            if h is not g and ev3(h, {}) is False:
                return False
        return True
