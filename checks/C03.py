"""C03: pose and intrinsic storage layout, both directions."""
from sa.core import *

A6 = "std::array<double, 6>"
A9 = "std::array<double, 9>"
THIS = mk("this")


def slots(prog):
    """(class, field, keyed)"""
    out = []
    for r in prog.records.values():
        for f in r["fields"]:
            t = f["t"].replace("6UL", "6").replace("9UL", "9")
            if t == A6:
                out.append((r["name"], f["n"], False))
            elif t.startswith("std::map<int, " + A6) or t.startswith("std::unordered_map<int, " + A6):
                out.append((r["name"], f["n"], True))
    return out


def six_vals(it, s):
    """values stored in S[0..5]"""
    v = it.store.get(s)
    if v is not None and v.op == "list" and len(v.a) == 6:
        return list(v.a)
    r = []
    for i in range(6):
        x = it.store.get(elem(s, C(i)))
        if x is None:
            return None if not r else False
        r.append(x)
    return r


def cell(t, i):
    """X when t is X[i]; float widening is transparent"""
    if t.op == "elem" and t.a[1] is C(i):
        return t.a[0]
    return None


def parts(vals):
    """[X0 X1 X2 Y0 Y1 Y2] -> (X, Y)"""
    xs = [cell(vals[i], i) for i in range(3)]
    ys = [cell(vals[3 + i], i) for i in range(3)]
    if None in xs or None in ys or xs[0] is not xs[1] or xs[0] is not xs[2] or ys[0] is not ys[1] or ys[0] is not ys[2]:
        return None
    return xs[0], ys[0]


def etav3(v, s):
    """v seen as a vector of cells of S: 'rot' | 'trans' | None"""
    cells = [elem(s, C(i)) for i in range(6)]
    if v is s or v.op == "v3" and list(v.a) == cells[:3]:
        return "rot"
    if v.op == "v3" and list(v.a) == cells[3:]:
        return "trans"
    if v.op == "agg" or v.op == "v3" or contains(v, s):
        return None
    return None


def classify(v, s):
    e = etav3(v, s)
    if e:
        return e
    if v.op == "pose" and v.a[0].op == "rod" and etav3(v.a[0].a[0], s) == "rot" and etav3(v.a[1], s) == "trans":
        return "mat"
    return None


def mutable(t):
    return t.rstrip().endswith("&") and not t.startswith("const ")


def slots_in(t, cls_slots):
    r = set()
    for x in subterms(t):
        if x.op == "fld" and x.a[0] is THIS and x.a[1] in cls_slots:
            r.add(x.a[1])
    return r


def run(c):
    c.rule("setter", "a pose setter stores rotation vector first, translation second, component i of the source in component i")
    c.rule("getter", "a pose getter returns components 0..2 as rotation and 3..5 as translation of one stored pose")
    c.rule("pair", "a setter and the getter of the same name use the same storage under the same key, and compose to the identity")
    c.rule("convert", "the conversions between rotation/translation vectors, 4x4 matrices and 6-vectors keep rotation and "
                      "translation and their order")
    c.rule("intrinsics", "camera matrix and distortion setters and getters use one layout, for both camera models")
    sl = slots(c.prog)
    by_cls = {}
    for cl, f, k in sl:
        by_cls.setdefault(cl, {})[f] = k
    acc = {}
    for fn in c.fns():
        cl = fn.get("cls")
        if cl not in by_cls or fn.get("ctor"):
            continue
        mats = [i for i, p in enumerate(fn["params"]) if bare(p["t"]) == "cv::Mat"]
        retmat = bare(fn.get("ret", "")) == "cv::Mat"
        if not mats and not retmat:
            continue
        it = c.it(fn)
        args = [mk("arg", p["n"], i) for i, p in enumerate(fn["params"])]
        short = fn["name"].split("::")[-1]
        tag = cl.split("::")[-1] + "::" + short
        wr = {w for w in by_cls[cl] for k in it.store if root_of(k, w)}
        # setter
        if mats and wr:
            for w in sorted(wr):
                base = fld(THIS, w)
                ss = [base]
                if by_cls[cl][w]:
                    ss = sorted({k if k.a[0] is base else k.a[0] for k in it.store if k.op == "elem" and (k.a[0] is base or k.a[0].op == "elem" and k.a[0].a[0] is base)}, key=str)
                for s in ss:
                    vals = six_vals(it, s)
                    if not vals:
                        if vals is False:
                            c.bad("setter", tag, fn, "%s stores only part of the pose" % tag)
                        elif it.store.get(s) is not None:
                            c.und("setter", fn, "%s := %s" % (s, show(it.store[s])[:100]))
                        continue
                    if s is not base and s.a[1].op != "arg":
                        c.bad("setter", tag + " key", fn, "%s stores under %s, not under the key it was given" % (tag, show(s.a[1])))
                        continue
                    p = parts(vals)
                    if p is None:
                        known = all(cell_any(v) is not None for v in vals)
                        c.judge(False if known else None, "setter", tag, fn, tag,
                                "%s stores components %s" % (tag, ", ".join(show(v) for v in vals)))
                        continue
                    x, y = p
                    good = bad = False
                    if x.op == "rod" and x.a[0].op == "R":
                        good = y.op == "t" and y.a[0] is x.a[0].a[0]
                        bad = not good
                    elif x.op == "t" or y.op == "rod":
                        bad = True
                    elif x in args and y in args:
                        good = x is not y
                        bad = x is y
                    c.judge(True if good else False if bad else None, "setter", tag, fn, "%s: rotation %s, translation %s" % (tag, x, y),
                            "%s stores %s as rotation and %s as translation" % (tag, show(x), show(y)))
                    if good and short.startswith("set"):
                        acc.setdefault((cl, short[3:]), {})["set"] = (fn, s, x, y)
        # getter
        outs = []
        for i in mats:
            v = it.store.get(args[i])
            if v is not None and v is not args[i]:
                outs.append((i, v))
        if retmat and isinstance(it.ret, Term):
            outs.append((-1, it.ret))
        res = []
        if short.startswith("get") and any(x in short for x in ("Pose", "Rot", "Trans")) and fn.get("body"):
            # what is returned has to come from the stored pose
            for i, v in outs + [(i, None) for i in mats if mutable(fn["params"][i]["t"]) and all(j != i for j, _ in outs)]:
                if v is None or v is EMPTY or v.op in ("undef", "zero", "zeros", "eye") or v.op == "ctor" and len(v.a) <= 1 or isconst(v):
                    c.bad("getter", tag + " unset", fn, "%s does not give back %s of the stored pose" % (tag, "any part" if i < 0 else "parameter %s" % fn["params"][i]["n"]))
        for i, v in outs:
            used = slots_in(v, by_cls[cl])
            if not used:
                continue
            if len(used) > 1:
                c.bad("getter", tag, fn, "%s mixes the stored poses %s" % (tag, ", ".join(sorted(used))))
                continue
            f = used.pop()
            base = fld(THIS, f)
            if by_cls[cl][f]:
                ks = {x for x in subterms(v) if x.op == "elem" and x.a[0] is base}
                if len(ks) != 1:
                    c.judge(False if ks else None, "getter", tag + " key", fn, tag, "%s mixes poses stored under several keys" % tag)
                    continue
                s = ks.pop()
                if s.a[1].op != "arg":
                    c.judge(None, "getter", tag + " key", fn, "%s key %s" % (tag, show(s.a[1])))
                    continue
            else:
                s = base
            k = classify(v, s)
            want = "rot" if i == 0 and len(outs) > 1 else None
            if k is None:
                pure = all(x.op in ("v3", "pose", "rod", "elem", "fld", "this", "arg", "c", "agg", "zeros") or not isinstance(x, Term)
                           for x in subterms(v))
                c.judge(False if pure else None, "getter", tag, fn, tag + " " + show(v)[:80],
                        "%s returns %s, which is neither the rotation, the translation nor the matrix of the stored pose" % (tag, show(v)[:300]))
                continue
            res.append((i, k, s))
            exp = None
            if "Trans" in short and i < 0:
                exp = "trans"
            elif "Rot" in short and i < 0:
                exp = "rot"
            elif short.endswith("Mat"):
                exp = "mat"
            c.judge(exp is None or exp == k, "getter", tag, fn, "%s returns the %s of %s" % (tag, k, s),
                    "%s returns the %s part of the stored pose" % (tag, {"rot": "rotation", "trans": "translation", "mat": "matrix"}[k]))
        if res and short.startswith("get"):
            acc.setdefault((cl, short[3:]), {})["get"] = (fn, res)
        if len(res) == 2 and {r[1] for r in res} != {"rot", "trans"}:
            c.bad("getter", tag + " outputs", fn, "%s returns the %s twice" % (tag, res[0][1]))
    for (cl, stem), d in sorted(acc.items()):
        if "set" not in d or "get" not in d:
            continue
        fs, s, x, y = d["set"]
        fg, res = d["get"]
        tag = "%s::*%s" % (cl.split("::")[-1], stem)
        for i, k, sg in res:
            same = (path(s) == path(sg))
            c.judge(same, "pair", tag + " storage", fg, "%s: same storage" % tag,
                    "%s reads %s but the setter of the same name stores %s" % (fg["name"], show(sg), show(s)))
        if len(res) == 2 and x.op == "arg" and y.op == "arg":
            # positions of rotation and translation among the matrix parameters
            so = [j for j in (x.a[1], y.a[1])]
            rot = [i for i, k, _ in res if k == "rot"]
            tr = [i for i, k, _ in res if k == "trans"]
            if rot and tr:
                c.judge((so[0] < so[1]) == (rot[0] < tr[0]), "pair", tag + " order", fg, "%s: same order of rotation and translation" % tag,
                        "%s and its setter take rotation and translation in opposite order: reading back exchanges them" % fg["name"])
    conversions(c)
    intrinsics(c)
    for r, n in (("setter", 8), ("getter", 10), ("pair", 4), ("convert", 5), ("intrinsics", 8)):
        c.need(r, n)
    return "other", ("Symbolic evaluation of every accessor and conversion; the stored and returned components are compared as terms. "
                     "All values, both camera models.")


def cell_any(t):
    if t.op == "elem" and isconst(t.a[1]):
        return t.a[0]
    if t.op == "c":
        return t
    return None


def root_of(k, w):
    while k.op in ("elem", "fld"):
        if k.op == "fld" and k.a[0] is THIS and k.a[1] == w:
            return True
        k = k.a[0]
    return False


def path(s):
    return (s.a[0].a[1], "key") if s.op == "elem" else (s.a[1],)


def eq3(a, b):
    """same 3-vector, X or v3(X[0],X[1],X[2])"""
    def e(x):
        if x.op == "v3":
            bs = {cell(v, i) for i, v in enumerate(x.a)}
            if len(bs) == 1 and None not in bs:
                return bs.pop()
        return x
    return e(a) is e(b)


def conversions(c):
    def fnd(n, k):
        return [f for f in c.prog.by_name.get("McCalib::" + n, []) if len(f["params"]) == k and not f.get("implicit")]

    def A(f, i):
        return mk("arg", f["params"][i]["n"], i)

    def j(ok, f, what, got):
        und = not isinstance(got, Term) or any(x.op in ("fix", "lam", "ite", "undef") for x in subterms(got))
        c.judge(True if ok else None if und else False, "convert", f["name"].split("::")[-1], f, what, "%s gives %s" % (f["name"], show(got)[:300]))
    for f in fnd("RT2Proj", 2):
        r = c.it(f).ret
        j(r is pose(A(f, 0), A(f, 1)), f, "matrix with rotation R and translation T", r)
    for f in fnd("RVecT2Proj", 2):
        r = c.it(f).ret
        j(r is pose(rod(A(f, 0)), A(f, 1)), f, "matrix with rotation Rodrigues(RVec) and translation T", r)
    for f in fnd("Proj2RT", 3):
        it = c.it(f)
        r, t = it.store.get(A(f, 1)), it.store.get(A(f, 2))
        P = A(f, 0)
        j(r is rod(mk("R", P)), f, "rotation vector of the rotation block", r)
        j(t is mk("t", P), f, "translation column", t)
    for f in fnd("ProjToVec", 1):
        r = c.it(f).ret
        P = A(f, 0)
        j(r.op == "list" and len(r.a) == 6 and parts(list(r.a)) == (rod(mk("R", P)), mk("t", P)), f, "rotation then translation", r)
    for f in fnd("vectorProj", 1):
        r = c.it(f).ret
        V = A(f, 0)
        j(isinstance(r, Term) and r.op == "pose" and r.a[0].op == "rod" and
          (r.a[0].a[0] is V or r.a[0].a[0] is mk("v3", *[elem(V, C(i)) for i in range(3)])) and
          r.a[1] is mk("v3", *[elem(V, C(i)) for i in range(3, 6)]), f, "rotation from 0..2, translation from 3..5", r)
    for n in (2, 4):
        for f in fnd("invertRvecT", n):
            it = c.it(f)
            P = mk("inv", pose(rod(A(f, 0)), A(f, 1)))
            r, t = it.store.get(A(f, n - 2)), it.store.get(A(f, n - 1))
            j(r is rod(mk("R", P)), f, "rotation of the inverse", r)
            j(t is mk("t", P), f, "translation of the inverse", t)
    from sa.poly import Norm, num
    nm = Norm()
    for f in fnd("transform3DPts", 3):
        r = c.it(f).ret
        if r.op != "collect" or len(r.a) < 3 or r.a[2].op != "point" or len(r.a[2].a) != 3:
            c.und("convert", f, "transform3DPts result not understood")
            continue
        L = c.it(f).loops_by_uid.get(r.a[0].a[0])
        full = L is not None and (L.kind == "each" and L.cont is A(f, 0)) and not L.has_break
        c.judge(True if full else None, "convert", "transform3DPts count", f, "one point per input point, in order")
        p = mk("elem", A(f, 0), L.key) if L is not None else None
        for i in range(3):
            want = nm(mk("elem", A(f, 2), C(i)))
            for jx, n in enumerate("xyz"):
                want = want + nm(mk("elem", rod(A(f, 1)), ij(C(i), C(jx)))) * nm(fld(p, n))
            got = nm(r.a[2].a[i])
            c.judge(got.eq(want), "convert", "transform3DPts." + "xyz"[i], f, "R p + T, row %d" % i,
                    "coordinate %s of a transformed point is %s" % ("xyz"[i], got.show()[:300]))


CAMLAY = {(0, 0): 0, (1, 1): 1, (0, 2): 2, (1, 2): 3}


def assume(t, dm, v):
    """t with distortion_model_ == v"""
    def go(x):
        if not isinstance(x, Term):
            return x
        if x is dm:
            return C(v)
        if x.op == "ite":
            k = go(x.a[0])
            if k is TRUE:
                return go(x.a[1])
            if k is FALSE:
                return go(x.a[2])
            return mk("ite", k, go(x.a[1]), go(x.a[2]))
        if x.op == "op":
            a = [go(y) for y in x.a[1:]]
            return binop(x.a[0], *a) if len(a) == 2 else unop(x.a[0], a[0])
        if x.op in ("zeros", "mat0", "ctor", "eye"):
            return mk(x.op, *[go(y) for y in x.a])
        if x.op == "agg":
            return mk("agg", go(x.a[0]), tuple((st, go(y)) for st, y in x.a[1]))
        return x
    return go(t)


def instances(key, val, it, dm, v):
    """the (key, value) pairs of an entry written in counting loops whose bounds are known for this camera model"""
    loops = {e.loop.key: e.loop for e in it.events if e.kind == "loop" and e.loop.kind == "range" and e.loop.key is not None}
    vs = [x for x in subterms(key) if x in loops]
    if not vs:
        return None if any(x.op in ("k", "i") for x in subterms(key)) else [(key, val)]
    L = loops[vs[0]]
    lo, hi = assume(L.start, dm, v), assume(L.bound, dm, v)
    if not (isconst(lo) and isconst(hi) and L.step == 1 and hi.a[0] - lo.a[0] < 20):
        return None
    r = []
    for i in range(lo.a[0], hi.a[0]):
        s = instances(fold(subst(key, {vs[0]: C(i)})), fold(subst(val, {vs[0]: C(i)})), it, dm, v)
        if s is None:
            return None
        r += s
    return r


def fold(t):
    if t.op == "op" and len(t.a) == 3:
        return binop(t.a[0], fold(t.a[1]), fold(t.a[2]))
    if t.op == "elem":
        return elem(t.a[0], fold(t.a[1]))
    if t.op == "ij":
        return mk("ij", fold(t.a[0]), fold(t.a[1]))
    return t


def cells_of(v):
    """explicit matrix cells: ({key: value}, base)"""
    if v.op == "agg":
        d = {}
        for st, x in v.a[1]:
            d[st[0][1] if isinstance(st[0], tuple) else st[0]] = x
        return d, v.a[0]
    return {}, v


def intrinsics(c):
    cam = c.prog.records.get("McCalib::Camera")
    fname = next((f["n"] for f in (cam or {"fields": []})["fields"] if f["t"].replace("9UL", "9") == A9), None)
    if fname is None:
        raise Broken("no 9-vector of intrinsics in Camera")
    K = fld(THIS, fname)
    dm = fld(THIS, "distortion_model_")
    for fn in c.fns():
        if fn.get("cls") != "McCalib::Camera" or fn.get("ctor"):
            continue
        short = fn["name"].split("::")[-1]
        mats = [i for i, p in enumerate(fn["params"]) if bare(p["t"]) == "cv::Mat"]
        retmat = bare(fn.get("ret", "")) == "cv::Mat"
        if not (mats or retmat):
            continue
        it = c.it(fn)
        # stores into the intrinsics
        for v in (0, 1):
            got = {}
            for i in range(9):
                x = it.store.get(elem(K, C(i)))
                if x is not None:
                    x = assume(x, dm, v)
                    if x is not elem(K, C(i)):
                        got[i] = x
            other = []
            for k in it.store:
                if root_of(k, fname) and not (k.op == "elem" and isconst(k.a[1])):
                    s = instances(k, assume(it.store[k], dm, v), it, dm, v) if k.op == "elem" and k.a[0] is K else None
                    if s is None:
                        other.append(k)
                    else:
                        got.update((q.a[1].a[0], x) for q, x in s if x is not q)
            if other:
                c.und("intrinsics", fn, "store %s" % show(other[0]))
                continue
            if not got or not mats:
                continue
            src = {}
            bad = None
            for i, x in got.items():
                if x.op != "elem" or x.a[0].op != "arg":
                    bad = (i, x) if x.op in ("elem", "c") else bad
                    c.judge(None if x.op not in ("elem", "c") else False, "intrinsics", "%s[%d]" % (short, i), fn, "slot %d" % i,
                            "%s stores %s in intrinsics[%d]" % (short, show(x), i))
                    continue
                src.setdefault(x.a[0], {})[i] = x.a[1]
            for a, m in src.items():
                if any(k.op == "ij" for k in m.values()):
                    exp = {i: mk("ij", C(r), C(q)) for (r, q), i in CAMLAY.items()}
                else:
                    exp = {4 + i: C(i) for i in range(5 if v == 0 else 4)}
                for i in sorted(set(exp) | set(m)):
                    g = m.get(i)
                    if g is None:
                        c.bad("intrinsics", "%s[%d] model %d" % (short, i, v), fn, "%s does not store intrinsics[%d] for camera model %d" % (short, i, v))
                    else:
                        gi = g
                        if g.op == "ij" and exp.get(i) is not None and exp[i].op != "ij":
                            gi = g.a[1] if g.a[0] is C(0) else g.a[0] if g.a[1] is C(0) else g
                        c.judge(exp.get(i) is gi, "intrinsics", "%s[%d] model %d" % (short, i, v), fn,
                                "%s: intrinsics[%d] from %s" % (short, i, g),
                                "%s stores entry %s of its argument in intrinsics[%d] (camera model %d)" % (short, show(g), i, v))
        outs = [(mk("arg", fn["params"][i]["n"], i), it.store.get(mk("arg", fn["params"][i]["n"], i))) for i in mats]
        outs = [(a, x) for a, x in outs if x is not None]
        if retmat and isinstance(it.ret, Term):
            outs.append((None, it.ret))
        for a, x in outs:
            for v in (0, 1):
                y = assume(x, dm, v)
                if not any(t.op == "fld" and t.a[1] == fname for t in subterms(y)):
                    if any(t.op == "fld" and t.a[1] == fname for t in subterms(x)):
                        c.bad("intrinsics", "%s model %d" % (short, v), fn, "%s returns no coefficient for camera model %d" % (short, v))
                    continue
                d, b = cells_of(y)
                d = {q: z for k, x in d.items() for q, z in (instances(k, x, it, dm, v) or [(k, x)])}
                if not d or y.op != "agg" or any(x.op in ("k", "i") for k in d for x in subterms(k)):
                    c.und("intrinsics", fn, "%s returns %s" % (short, show(y)[:80]))
                    continue
                dims = [t.a[0] for t in b.a[1:4] if isconst(t)] if b.op == "ctor" else [t.a[0] for t in b.a[:2] if isconst(t)]
                if any(k.op == "ij" and k.a[1] is not C(0) and k.a[0] is not C(0) for k in d):
                    exp = {mk("ij", C(r), C(q)): elem(K, C(i)) for (r, q), i in CAMLAY.items()}
                    exp[mk("ij", C(2), C(2))] = C(1.0)
                    eye = b.op == "eye"
                    for k in set(exp) | set(d):
                        g = d.get(k)
                        if g is None and eye and k is mk("ij", C(2), C(2)):
                            continue
                        if g is not None and isconst(g) and exp.get(k) is not None and isconst(exp[k]) and g.a[0] == exp[k].a[0]:
                            g = exp[k]
                        if g is not None and k not in exp and isconst(g) and g.a[0] == 0:
                            continue
                        c.judge(g is exp.get(k), "intrinsics", "%s%s" % (short, show(k)), fn, "%s: %s = %s" % (short, k, g),
                                "%s puts %s at %s of the camera matrix" % (short, show(g) if g is not None else "nothing", show(k)))
                else:
                    n = 5 if v == 0 else 4
                    one = {}
                    for k, g in d.items():
                        if k.op == "ij":
                            k = k.a[1] if k.a[0] is C(0) else k.a[0]
                        one[k] = g
                    for i in range(n):
                        g = one.get(C(i))
                        c.judge(g is elem(K, C(4 + i)), "intrinsics", "%s(%d) model %d" % (short, i, v), fn,
                                "%s: coefficient %d of model %d" % (short, i, v),
                                "%s returns %s as distortion coefficient %d of camera model %d" % (short, show(g) if g is not None else "nothing", i, v))
                    ln = dims[0] * dims[1] if len(dims) >= 2 else None
                    c.judge(None if ln is None else ln == n, "intrinsics", "%s size model %d" % (short, v), fn,
                            "%s returns %d coefficients for model %d" % (short, n, v),
                            "%s returns %s coefficients for camera model %d, which takes %d" % (short, ln, v, n))
