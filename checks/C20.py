"""C20: reported reprojection errors are mean distances of detected to projected points."""
from sa.core import *
from sa.views import *

OPQ = tuple(AVG) + GRAPH
HELPERS = ("projectPointsWithDistortion",)
ROOTN = ("sqrt", "std::sqrt")
ABS = ("std::abs", "fabs", "std::fabs", "abs")


def run(c):
    c.rule("pose", "a point is projected with poses that lead from its own frame to the camera, and with that camera's model")
    c.rule("camera", "the camera of a projection is the one that made the observation")
    c.rule("distance", "an error is the Euclidean distance of a detected point and the projection of the same corner")
    c.rule("mean", "an average divides the sum by the number of its terms")
    c.rule("list", "a written list of errors has one entry per projected point")
    sums(c)
    seen = set()
    once = lambda *k: k not in seen and not seen.add(k)
    for fn in c.roots():
        n = fn["name"].split("::")[-1]
        if n in ("main", "runCalibrationWorkflow"):
            continue
        it = c.it(fn, opaque=tuple(x for x in OPQ if x != fn["name"]), tag="lw", hooks={"localwrites": True})
        V = Views(c, fn, it)
        for s in V.sites():
            if s.kind == "project":
                pose(c, V, s, once)
        sinks(c, V, once)
    c.need("pose", 3)
    c.need("camera", 2)
    c.need("distance", 3)
    c.need("mean", 2)
    return "other", ("Symbolic evaluation of every function that reports a reprojection error: frames of projected points, the formula of each error "
                     "(polynomial normal form), and for each average the loops and conditions of its sum against those of its divisor.")


def sums(c):
    """std::accumulate over a list of errors: over all of it, with a sum that keeps fractions"""
    for fn in c.fns():
        vs = [x for x in walk(fn.get("body")) if x.get("k") == "var"]
        for a, x in zip(vs, vs[1:]):
            if a["n"] == "_acc" and x["n"] == "_x" and a["id"] >= 10000000 and x["id"] == a["id"] + 1:
                fl = any(w in x["t"].split() for w in ("float", "double"))
                if fl:
                    whole = not any(w in a["t"].split() for w in ("float", "double"))
                    c.judge(not whole, "mean", "sum in " + fn["name"], "%s:%s (%s)" % (fn["file"], a["l"], fn["name"]), "sum kept as %s" % a["t"],
                            "the sum of %s is kept as %s: fractions are lost at every step" % (x["t"], a["t"]))
        for e in walk(fn.get("body")):
            if e.get("k") == "call" and e.get("f") == "std::accumulate" and e.get("a"):
                b = e["a"][0]
                off = [y for y in walk(b) if y.get("k") == "call" and str(y.get("f", "")).split("::")[-1] in ("operator+", "next", "operator++")]
                fl = "float" in str(b.get("t")) or "double" in str(b.get("t"))
                w = "%s:%s (%s)" % (fn["file"], e["l"], fn["name"])
                if off and fl:
                    c.bad("mean", "range in " + fn["name"], w, "the sum leaves out the first entries")
                else:
                    c.und("mean", w, "std::accumulate")


def name(e):
    return e.fn["name"].split("McCalib::")[-1] if isinstance(e.fn, dict) else "?"


# ------------------------------------------------------------------------ poses
def frame(V, x, d=0):
    """frame in which a 3D point is expressed"""
    if x is None or d > 4:
        return None
    x = strip(x)
    r = V.rigid(x)
    if r is not None:
        if r[0] == "bad":
            return None
        return apply(V, r[0], r[1], frame(V, r[2], d + 1))
    if x.op == "xform":
        return apply(V, x.a[0], x.a[1], frame(V, x.a[2], d + 1))
    return V.F.ptsframe(x)


def apply(V, R, t, f):
    T = V.F.join(V.F.rtype(R), V.F.ttype(t), "rotation and translation are of different poses")
    if T is None or f is None:
        return None
    if T == ID:
        return f
    if V.F.same(T[1], f) is False:
        raise Mismatch("the pose (%s) is applied to points in the frame of %s %s" % (V.F.sh(T), {"C": "camera", "B": "board"}.get(f[0], ""), show(f[1])[:120]))
    return T[0]


def pose(c, V, s, once):
    V.F.eqs[:] = []
    V.F.assume(s.e.guards())
    k = "%s in %s" % (s.f.split("::")[-1], name(s.e))
    x = V.at(s.p3)
    if x is None or s.p3.op == "arg":
        return
    try:
        f = apply(V, s.R, s.t, frame(V, x))
    except Mismatch as m:
        if once("p", s.e.line, name(s.e), str(m)):
            c.bad("pose", k, s.e, str(m))
        return
    cam = V.F.camof(s.K)
    r = None if f is None or cam is None else V.F.same(f, cam)
    if once("p", s.e.line, name(s.e), r):
        c.judge(r, "pose", k, s.e, "%s: points arrive in the frame of the camera" % k,
                "" if r is not False else "points end in the frame of %s but are projected with the model of camera %s" % (show(f[1])[:120] if isinstance(f[1], Term) else f[0], show(cam[1])[:120]))
    o = V.corner3(x)
    if o is None or o[0] is ARGS or cam is None:
        return
    own = ("C", V.F.canon(mk("fld", o[0], "camera_id_")))
    r = V.F.same(own, cam)
    if once("c", s.e.line, name(s.e), r):
        c.judge(r, "camera", k, s.e, "%s: camera of the observation" % k, "" if r is not False else "the points seen by camera %s are projected into camera %s" % (show(own[1])[:120], show(cam[1])[:120]))


# ----------------------------------------------------------------------- errors
def projected(t):
    return any(x.op == "elem" and x.a[0].op == "out" and x.a[0].a[0] in PROJ for x in subterms(t))


def helper(V):
    return V.it.entry.fn["name"].split("::")[-1] == "computeDistanceBetweenPoints"


def sinks(c, V, once):
    for e in V.it.events:
        ts = []
        if e.kind == "lwrite" or e.kind == "ret" and e.depth == 1:
            ts = [e.d.get("val")]
        elif e.kind in ("call", "icall") and e.f == "cv::operator<<":
            ts = list(e.args[1:2])
            if ts and ts[0].op in ("collect", "agg", "push", "call", "row", "slice") and projected(ts[0]):
                written(c, V, e, ts[0], once)
        elif e.kind == "fsw" and isinstance(e.d.get("val"), Term) and e.d["val"].op in ("row", "slice") and projected(e.d["val"]):
            written(c, V, e, e.d["val"], once)
        for t in ts:
            if not isinstance(t, Term):
                continue
            if not relevant(V, t):
                continue
            for x in subterms(t):
                if x.op == "op" and x.a[0] == "/" and len(x.a) == 3:
                    average(c, V, e, x, x.a[1], x.a[2], once)
                elif x.op == "call" and x.a[0] == "cv::mean" and relevant(V, x.a[1]):
                    items(c, V, e, flat(V, size_of(x.a[1])), x.a[1], once)
            if e.kind == "ret" and (helper(V) or t.op == "collect") and relevant(V, t):
                full(c, V, e, t, once)


def relevant(V, t):
    if projected(t):
        return True
    return helper(V) and any(x.op == "elem" and x.a[0].op == "arg" for x in subterms(t))


def written(c, V, e, t, once):
    full(c, V, e, t, once)


def full(c, V, e, t, once):
    k = "errors in " + name(e)
    for l in leaves(t):
        if l.op in ("row", "slice") and leaves(l.a[0])[0].op == "collect" and projected(l.a[0]):
            c.bad("list", k, e, "only a part of the errors is written")
        if l.op == "call" and str(l.a[0]).split("::")[-1] in ("row", "rowRange", "head", "tail") and str(l.a[0]).startswith("cv::Mat") and \
                any(x.op == "collect" and projected(x) for x in l.a if isinstance(x, Term)):
            c.bad("list", k, e, "only a part of the errors is written")
        if l.op != "collect":
            continue
        L, init, item, g = l.a
        if init is not EMPTY:
            continue
        lp = V.it.loops_by_uid.get(L.a[0])
        w = None
        if lp is not None:
            r = loop_full(lp)
            dep = g is not TRUE and contains(g, L.a[1])
            w = False if r is False or dep and not benign_guard(g) else True if r and g is TRUE or r and not dep else None
            if r is None and lp.kind == "range" and lp.start is C(0) and not lp.has_break and lp.step == 1:
                w = True if lp.bound.op == "size" and not dep else w
        if once("l", e.line, name(e), w):
            c.judge(w, "list", k, e, k, "" if w is not False else "not every projected point has its error in the list")
        error(c, V, e, item, once)


def leaves(t):
    if t.op == "ite":
        return leaves(t.a[1]) + leaves(t.a[2])
    return [t]


def uncast(x):
    while x.op in ("cast", "trunc") and x.a or x.op == "call" and len(x.a) == 2 and "cast" in str(x.a[0]):
        x = x.a[-1]
    return x


def points(x):
    """image points of which coordinates occur"""
    r = []
    for y in subterms(x):
        if y.op == "fld" and y.a[1] in ("x", "y") and y.a[0].op == "elem" and y.a[0] not in r:
            r.append(y.a[0])
    return r


def inner(x):
    """subterms without those inside lists"""
    todo = [x]
    while todo:
        y = todo.pop()
        yield y
        if y.op == "fld" and y.a[1] in ("x", "y") and y.a[0].op == "elem" or y.op == "elem":
            continue
        todo += [z for z in y.a if isinstance(z, Term)]


def coords(x):
    return {y for y in inner(x) if y.op == "fld" and y.a[1] in ("x", "y") and y.a[0].op == "elem"}


def euclid(V, x):
    """(True | False | None, the two points) : is the value the distance of two image points"""
    x = uncast(x)
    if x.op == "call" and x.a[0] == "cv::norm" and len(x.a) in (2, 3):
        d = x.a[1:3]
        if len(d) == 1 and d[0].op == "op" and d[0].a[0] == "-" or len(d) == 2 and not isconst(d[1]):
            a, b = (d[0].a[1], d[0].a[2]) if len(d) == 1 else d
            if a.op == b.op == "elem":
                return True, [a, b]
        if len(d) == 1 and d[0].op == "point" and len(d[0].a) == 2:
            x = mk("call", "sqrt", mk("op", "+", *[mk("op", "*", y, y) for y in d[0].a]))
        elif len(d) == 2 and d[0].op == "op" and d[0].a[0] == "-" and isconst(d[1]):
            a, b = d[0].a[1], d[0].a[2]
            return (True if d[1].a[0] == 4 else False), [a, b]
        else:
            return None, []
    if x.op == "call" and str(x.a[0]).split("::")[-1] in ("hypot", "hypotf") and len(x.a) == 3:
        x = mk("call", "sqrt", mk("op", "+", *[mk("op", "*", y, y) for y in x.a[1:]]))
    if x.op == "call" and x.a[0] in poly.POW and len(x.a) == 3 and isconst(x.a[2]) and x.a[2].a[0] == 0.5:
        x = mk("call", "sqrt", x.a[1])
    cs = coords(x)
    ps = []
    for y in cs:
        if y.a[0] not in ps:
            ps.append(y.a[0])
    if len(ps) == 1 and x.op == "call" and x.a[0] in ROOTN and any(y.op == "op" and y.a[0] == "-" for y in inner(x)):
        return False, ps
    if len(ps) != 2:
        return None, ps
    a, b = ps
    try:
        N = poly.Norm()
        want = mk("op", "+", *[mk("op", "*", mk("op", "-", mk("fld", a, q), mk("fld", b, q)), mk("op", "-", mk("fld", a, q), mk("fld", b, q))) for q in "xy"])
        if x.op == "call" and x.a[0] in ROOTN:
            got, want = N(x.a[1]), N(want)
        else:
            got, want = N(x), N(mk("call", "sqrt", want))
        if got.eq(want):
            return True, ps
        at = got.atoms()
    except Exception:
        return None, ps
    return (False if all(plain(y) for y in at) else None), ps


def plain(t):
    """atom made of coordinates only"""
    if t.op == "fld" and t.a[1] in ("x", "y"):
        return True
    if t.op == "fn":
        return True
    return False


def error(c, V, e, item, once):
    item = uncast(item)
    if item.op == "ite":
        error(c, V, e, item.a[1], once)
        error(c, V, e, item.a[2], once)
        return
    if isconst(item) or not coords(item) and not (item.op == "call" and item.a[0] == "cv::norm"):
        return
    r, ps = euclid(V, item)
    k = "in " + name(e)
    if once("e", name(e), item):
        c.judge(r, "distance", k, e, "error %s" % k, "" if r is not False else "an error is computed as something else than the distance of the detected point and its projection: %s" %
                show(short(item, ps))[:300])
    if r and len(ps) == 2:
        n = sum(1 for p in ps if p.a[0].op == "out" and p.a[0].a[0] in PROJ)
        if n != 1 and not helper(V) and all(p.a[0].op in ("out", "fld", "elem") for p in ps):
            if once("n", name(e), item):
                c.bad("distance", "points " + k, e, "the distance is not taken between a detected and a projected point")


def short(x, ps):
    for i, p in enumerate(ps):
        x = subst(x, {p: mk("p%d" % i)})
    return x


# ---------------------------------------------------------------------- averages
def size_of(l):
    return mk("size", l)


def iszero(t):
    return isconst(t) and t.a[0] == 0 or t is EMPTY or t.op == "point" and all(isconst(x) and x.a[0] == 0 for x in t.a) or t.op in ("mat0",) or \
        t.op == "ctor" and len(t.a) == 1 or t.op == "zeros"


def flat(V, t, head=None, path=(), d=0):
    """terms added up: list of (loops with conditions, value), None when the structure is not understood; in order of nesting"""
    if d > 40:
        return None
    t = uncast(t)
    if head is not None and t is head or head is None and iszero(t):
        return []
    op = t.op
    if op == "sum":
        L, init, item, g = t.a
        a = flat(V, init, head, path, d + 1)
        return None if a is None else a + [(path + ent(V, L, g), item)]
    if op == "fix":
        L, init, h, step = t.a
        a = flat(V, init, head, path, d + 1)
        b = flat(V, step, h, path + ent(V, L, TRUE), d + 1)
        return None if a is None or b is None else a + b
    if op == "ite":
        g = t.a[0]
        x, y = flat(V, t.a[1], head, path + conds(g), d + 1), flat(V, t.a[2], head, path + conds(unop("!", g)), d + 1)
        if x is None or y is None:
            # no terms at all on a path where nothing is reported
            return None
        return x + y
    if op in ("op", "cvop") and t.a[0] == "+" and len(t.a) == 3:
        for i in (1, 2):
            if head is not None and not contains(t.a[3 - i], head) or head is None and iszero(t.a[i]):
                x = flat(V, t.a[i], head, path, d + 1)
                if x is not None:
                    return x + [(path, t.a[3 - i])]
        if head is None:
            x, y = flat(V, t.a[1], None, path, d + 1), flat(V, t.a[2], None, path, d + 1)
            if x is not None and y is not None:
                return x + y
            if x is not None and isconst(t.a[2]):
                return x + [(path, t.a[2])]
            if y is not None and isconst(t.a[1]):
                return y + [(path, t.a[1])]
        return None
    if op == "op" and t.a[0] == "-" and len(t.a) == 3 and head is None and isconst(t.a[2]):
        x = flat(V, t.a[1], None, path, d + 1)
        return None if x is None else x + [(path, C(-t.a[2].a[0]))]
    if op == "size":
        return entries(V, t.a[0], path, d + 1)
    if op == "call" and t.a[0] in ("cv::Mat::total",):
        return entries(V, t.a[1], path, d + 1)
    if op == "fld" and t.a[1] == "rows":
        return entries(V, t.a[0], path, d + 1)
    if op in ("elem",) and len(t.a) == 2 and isconst(t.a[1]) and t.a[1].a[0] == 0:
        b = t.a[0]
        if b.op == "fld" and b.a[1] == "val":
            b = b.a[0]
        if b.op in ("fix", "sum", "ite"):
            return flat(V, b, head, path, d + 1)
        return None
    if op == "op" and t.a[0] == "*" and len(t.a) == 3 and head is None:
        for i in (1, 2):
            if isconst(t.a[i]):
                x = flat(V, t.a[3 - i], None, path, d + 1)
                return None if x is None else [(p, binop("*", v, t.a[i])) for p, v in x]
    if op == "push":
        a = flat(V, t.a[0], head, path, d + 1)
        return None if a is None else a + [(path, C(1))]
    return None


def conds(g):
    """conditions as a set of conjuncts; conditions on the presence of what is used are kept too"""
    return tuple(sorted({x for x in conj([g])}, key=lambda x: x.n))


def ent(V, L, g):
    """loop over entries, described by what it visits"""
    lp = V.it.loops_by_uid.get(L.a[0])
    key = L.a[1]
    if lp is None:
        return (("loop", L),) + conds(g)
    over = None
    if lp.kind == "each" and lp.cont is not None:
        over = lp.contval if lp.contval is not None else lp.cont
    elif lp.kind == "range" and lp.start is C(0) and lp.step == 1 and isinstance(lp.bound, Term) and not lp.has_break:
        over = lp.bound.a[0] if lp.bound.op == "size" else mk("upto", lp.bound)
    if over is None:
        return (("loop", L),) + conds(g)
    return (("over", key, over),) + (conds(g) if g is not TRUE else ())


def entries(V, l, path, d):
    """entries of a list as terms of a sum of ones"""
    if d > 40:
        return None
    if l is EMPTY or l.op == "mat0":
        return []
    if l.op == "collect":
        L, init, item, g = l.a
        a = entries(V, init, path, d + 1)
        return None if a is None else a + [(path + ent(V, L, g), C(1))]
    if l.op == "push":
        a = entries(V, l.a[0], path, d + 1)
        return None if a is None else a + [(path, C(1))]
    if l.op == "ite":
        x = entries(V, l.a[1], path + conds(l.a[0]), d + 1)
        y = entries(V, l.a[2], path + conds(unop("!", l.a[0])), d + 1)
        return None if x is None or y is None else x + y
    if l.op == "fix":
        L, init, h, step = l.a
        return None
    return [(path + (("over", None, l),), C(1))]


def base(V, l):
    """(list whose length it is, conditions): mapped lists have the length of what they are made from"""
    cs = []
    n = 0
    while n < 20:
        n += 1
        l = strip(l)
        if l.op == "out" and l.a[0] in PROJ:
            i = SELECT[l.a[0]][0] if l.a[0] in SELECT else FIXED[l.a[0]][1]
            l = l.a[2 + i]
        elif l.op == "call" and l.a[0] == "McCalib::transform3DPts":
            l = l.a[1]
        elif l.op == "collect" and l.a[1] is EMPTY:
            e = ent(V, l.a[0], l.a[3])
            if e[0][0] != "over" or any(isinstance(g, Term) and e[0][1] is not None and contains(g, e[0][1]) for g in e[1:]):
                return l, cs
            cs += list(e[1:])
            l = e[0][2]
        elif l.op == "fld" and l.a[1] in V.LISTS:
            return mk("corners", V.F.canon(l.a[0])), cs
        elif l.op in ("lam",):
            l = l.a[1]
        else:
            return l, cs
    return l, cs


def canon(V, terms):
    """multiset of (loops and conditions) with coefficient; keys of loops over equal lists identified"""
    r = {}
    more = []
    for path, v in terms:
        v = uncast(v)
        if v.op == "call" and v.a[0] == "cv::sum":
            x = entries(V, v.a[1], path, 0)
            if x is None:
                return None
            more += x
        elif v.op == "size" or v.op == "call" and v.a[0] == "cv::Mat::total":
            x = entries(V, v.a[-1], path, 0)
            if x is None:
                return None
            more += x
        else:
            more.append((path, v))
    for path, v in more:
        out, cs = [], set()
        for p in path:
            if isinstance(p, Term):
                cs.add(p)
            elif p[0] == "over":
                b, more = base(V, p[2])
                cs |= set(more)
                out.append((p[1], b))
            else:
                return None
        # the innermost loops may use different keys for the same visit
        i = len(out) - 1
        key = tuple((None if j == i and not any(k is not None and contains(g, k) for g in cs) else k, b) for j, (k, b) in enumerate(out))
        kk = (key, frozenset(strip(g) for g in cs if not vacuous(V, g)))
        r.setdefault(kk, []).append(v)
    return r


def vacuous(V, g):
    """conditions on the result being there at all"""
    if g.op == "nn":
        return False
    return any(x.op in ("isempty",) or x.op == "size" for x in subterms(g)) and g.op in ("isempty", "op", "size")


def items(c, V, e, terms, l, once):
    for x in leaves(l):
        if x.op == "collect":
            full(c, V, e, x, once)


def average(c, V, e, t, num, den, once):
    if not relevant(V, num):
        return
    k = "in " + name(e)
    if num.op == "call" and num.a[0] == "cv::mean" or not any(x.op in ("sum", "fix", "fld") for x in subterms(num)):
        return
    a, b = flat(V, num), flat(V, den)
    for q, what in ((num, "sum"), (den, "number of terms")):
        if resets(V, q, b if q is num else a) and once("r", name(e), q):
            c.bad("mean", k, e, "the %s is not carried from one term to the next: only a last part is left" % what)
            return
    if a is None and not any(x.op == "call" and x.a[0] in ROOTN + ("cv::norm", "cv::mean", "cv::sum") + poly.POW for x in inner(num)):
        return
    if a is None or b is None or not a:
        if once("m", name(e), t):
            c.und("mean", e, "average %s" % k)
        return
    if not any(coords(v) or any(x.op == "call" and x.a[0] in ("cv::mean", "cv::norm", "cv::sum") for x in subterms(v)) for p, v in a):
        return                  # a ratio of counts
    for p, v in a:
        if uncast(v).op != "call" or uncast(v).a[0] not in ("cv::mean", "cv::sum"):
            error(c, V, e, v, once)
        for x in subterms(v):
            if x.op == "call" and x.a[0] in ("cv::mean", "cv::sum"):
                items(c, V, e, None, x.a[1], once)
    ca, cb = canon(V, a), canon(V, b)
    if ca is None or cb is None:
        if once("m", name(e), t):
            c.und("mean", e, "average %s" % k)
        return
    r, msg = True, ""
    if any(not (isconst(v) and v.a[0] == 1) for vs in cb.values() for v in vs) or any(len(vs) != 1 for vs in cb.values()):
        consts = all(isconst(v) for vs in cb.values() for v in vs)
        plainly = all(x.op == "fld" and not coords(x) for x in (uncast(v) for vs in cb.values() for v in vs) if not isconst(x))
        r, msg = (False if consts or plainly else None), "the divisor is not the number of terms: it counts %s" % ", ".join(sorted({show(v) for vs in cb.values() for v in vs}))
    elif set(ca) != set(cb):
        r = False
        oa, ob = sorted(set(ca) - set(cb), key=str), sorted(set(cb) - set(ca), key=str)
        msg = "the sum has terms for %s, the divisor counts %s" % (tell(oa), tell(ob))
        if not all(sure(V, x) for x in oa + ob):
            r = None
    elif any(len(vs) != 1 for vs in ca.values()):
        r = None
    if once("m", name(e), t, r):
        c.judge(r, "mean", k, e, "average %s" % k, msg)


def resets(V, q, other):
    """a running sum of which each pass of a loop forgets the passes before"""
    if not other:
        return False
    st, seen = [uncast(q)], set()
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "lastof":
            return True
        if t.op == "ite":
            st += [t.a[1], t.a[2]]
        elif t.op == "fix":
            for x in leaves(t.a[3]):
                x = uncast(x)
                if x.op not in ("fix", "sum", "lastof", "ite") and relevant(V, x) and not any(y.op == "lam" for y in shallow(x)):
                    return True
            st.append(t.a[3])
        elif t.op in ("elem", "fld") and t.a[0].op in ("elem", "fld", "lastof", "fix", "ite"):
            st.append(t.a[0])
    return False


def shallow(x):
    """the operands a sum is made of"""
    st = [x]
    while st:
        t = st.pop()
        yield t
        if t.op in ("op", "cvop", "cast", "trunc", "point", "ite", "elem", "fld", "fix"):
            st += [y for y in t.a if isinstance(y, Term)]


def sure(V, x):
    key, cs = x
    return all(b.op in ("corners", "fld", "collect", "elem") for k, b in key)


def tell(xs):
    if not xs:
        return "nothing more"
    return "; ".join("each of %s%s" % (", ".join(show(b)[:80] for k, b in key) or "once", (" if " + " and ".join(show(g)[:60] for g in cs)) if cs else "") for key, cs in xs[:2])
