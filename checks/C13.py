"""C13: image points, model points and ids stay in correspondence."""
from sa.core import *
from sa.views import *
from sa.engine import rebuild

OPQ = tuple(AVG) + GRAPH
HELPERS = ("ransacP3P", "ransacP3PDistortion", "projectPointsWithDistortion", "computeDistanceBetweenPoints")
PAIRED = {"pts_2d_": ("charuco_id_", "pts_id_"), "charuco_id_": ("pts_2d_",), "pts_id_": ("pts_2d_",)}
AXES = ("x", "y", "z")


def run(c):
    c.rule("pair", "the lists of model points and image points of one call list the same corners in the same order")
    c.rule("model", "a model point is taken from the board or object that its index refers to")
    c.rule("residual", "image point and model point of a residual are the same corner, coordinate by coordinate")
    c.rule("distance", "coordinates are subtracted only between the detected and the projected point of one corner, along one axis")
    c.rule("parallel", "the image points and the ids of an observation are replaced and extended together, by the same corners")
    c.rule("source", "image points and ids of a new observation come from the same detection")
    seen = set()
    once = lambda *k: k not in seen and not seen.add(k)
    for fn in c.roots():
        if fn["name"].split("::")[-1] in ("main", "runCalibrationWorkflow"):
            continue
        it = c.it(fn, opaque=tuple(x for x in OPQ if x != fn["name"]) if fn["name"].split("::")[-1] in HELPERS else OPQ)
        V = Views(c, fn, it)
        for s in V.sites():
            if s.kind == "residual":
                residual(c, V, s, once)
            elif s.kind in ("pnp", "calibrate"):
                pair(c, V, s, once)
            if s.p3 is not None if s.kind != "residual" else False:
                owner(c, V, s, V.at(s.p3), s.e, once)
        distances(c, V, once)
        parallel(c, V, once)
        sources(c, V, once)
    c.need("pair", 2)
    c.need("residual", 3)
    c.need("distance", 4)
    c.need("parallel", 2)
    return "other", ("Corner provenance analysis over symbolically evaluated functions: each list is described by the corner at a generic position; "
                     "paired lists have to agree.")


def key(s):
    return "%s in %s" % (s.f.split("::")[-1], name(s.e))


def name(e):
    return e.fn["name"].split("McCalib::")[-1] if isinstance(e.fn, dict) else "?"


ATOMS = ("k", "i", "pos", "args", "cal", "this", "arg", "glob", "sel", "new", "rpos")


def known(t):
    if t.op in ATOMS or isconst(t):
        return True
    if t.op in ("op", "elem", "fld", "cast", "mkpair", "trunc"):
        return t.op != "elem" or t.a[0] is not EMPTY and all(known(x) for x in t.a if isinstance(x, Term))            if t.op == "elem" else all(known(x) for x in t.a if isinstance(x, Term))
    return False


def noid(t):
    """an index made without any list of ids"""
    if t.op in ATOMS or isconst(t):
        return True
    if t.op in ("op", "cast", "trunc"):
        return all(noid(x) for x in t.a if isinstance(x, Term))
    return t.op == "size" or t.op == "lam"


def agree(V, a, b):
    """same corner? True / False / None"""
    if a is None or b is None:
        return None
    (o1, p1), (o2, p2) = a, b
    if o1 is not o2:
        if ARGS in (o1, o2):
            return None
        if not V.F.equal(o1, o2):
            return False if V.F.known(o1) and V.F.known(o2) else None
    if p1 is p2 or V.F.equal(p1, p2):
        return True
    if p1.op == "sel" and p2.op == "sel":
        return False
    if p1.op == p2.op == "elem" and p1.a[0] is p2.a[0] and isconst(p1.a[1]) and isconst(p2.a[1]):
        return False                    # different elements of one permutation
    if known(p1) and known(p2):
        return False
    # one through an index list, the other not
    return False if o1 is ARGS and (noid(p1) and p2.op == "elem" or noid(p2) and p1.op == "elem") else None


def corner(a):
    return "%s of %s" % (show(a[1])[:70], show(a[0])[:90])


def pair(c, V, s, once):
    w = (c.w(s.e), s.f)
    V.F.eqs[:] = []
    V.F.assume(s.e.guards())
    if s.p3 is None or s.p2 is None:
        return
    l3, l2 = s.p3, s.p2
    if s.kind == "calibrate":
        r = pushed(V, s)
        if r is None:
            r = inner(V, l3, l2)
        if r is None:
            if once(w, "u"):
                c.und("pair", s.e, key(s))
            return
        if r is False:
            if once(w, "b"):
                c.bad("pair", key(s), s.e, "the lists of views are not extended together")
            return
        l3, l2 = r
    if l3.op == "list" and l2.op == "list":
        if len(l3.a) != len(l2.a):
            if once(w, "n"):
                c.bad("pair", key(s), s.e, "%d model points are paired with %d image points" % (len(l3.a), len(l2.a)))
            return
        todo = list(zip(l3.a, l2.a))
    else:
        todo = [(V.at(l3), V.at(l2))]
    for x3, x2 in todo:
        a, b = V.corner3(x3), V.corner2(x2)
        r = agree(V, a, b)
        if a is None and unindexed(V, x3):
            r, a, b = False, (mk("cal"), V.model3(strip(x3))[1]), b or (mk("cal"), P)
        if r is None and x3 is not None and x2 is not None and V.corner3(strip(x3)) is None:
            a, b = args(x3), args(x2)
            r = True if a is not None and a is b else None
        if once(w, r, a, b):
            c.judge(r, "pair", key(s), s.e, "%s: same corner" % key(s),
                    "" if r is not False else "model point %s is paired with image point %s" % (corner(a), corner(b)))


def args(x):
    """index at which a helper's argument list is read, whatever the index is"""
    return x.a[1] if x.op == "elem" and x.a[0].op == "arg" else None


def pushed(V, s):
    """inner lists of two lists of lists that are extended by one statement each"""
    locs = s.e.d.get("locs") or ()
    if len(locs) < 2 or not all(isinstance(x, Term) for x in locs[:2]):
        return None
    ps = [[e for e in V.it.events if e.kind == "push" and e.cont is l and e.seq < s.e.seq] for l in locs[:2]]
    if any(len(p) != 1 for p in ps):
        return None
    a, b = ps[0][0], ps[1][0]
    if [l.uid for l in a.loops()] != [l.uid for l in b.loops()]:
        return None
    if set(a.guards()) != set(b.guards()):
        return False
    V.F.assume(a.guards())
    return a.val, b.val


def inner(V, a, b):
    """inner lists of two lists of lists extended together"""
    a, b = strip(a), strip(b)
    if a.op == "collect" and b.op == "collect":
        if a.a[0] is not b.a[0]:
            return None
        if a.a[3] is not b.a[3]:
            return False
        return a.a[2], b.a[2]
    return None


def unindexed(V, x):
    """the model point is not looked up through the ids of an observation"""
    m = V.model3(strip(x)) if x is not None else None
    return m is not None and V.idof(m[1]) is None and noid(m[1])


def owner(c, V, s, x, e, once):
    """the model a point is taken from is the one the index is for"""
    if x is None:
        return
    m = V.model3(strip(x))
    if m is None:
        return
    model, idx = m
    if unindexed(V, x):
        if once(c.w(e), "noid"):
            c.bad("model", "index in %s" % name(e), e, "the model point has index %s, not the id of a detected corner" % show(idx)[:100])
        return
    i = V.idof(idx)
    if i is None:
        return
    obs, q, kind = i
    V.F.eqs[:] = []
    V.F.assume(e.guards())
    F = V.F
    if kind == "charuco_id_":
        want = F.canon(mk("fld", mk("fld", obs, "board_3d_"), "board_id_")), F.canon(mk("fld", obs, "board_id_"))
        have = F.canon(mk("fld", model, "board_id_"))
    elif kind == "pts_id_":
        want = F.canon(mk("fld", mk("fld", obs, "object_3d_"), "obj_id_")), F.canon(mk("fld", obs, "object_3d_id_"))
        have = F.canon(mk("fld", model, "obj_id_"))
    else:
        # point of an object -> the board the map names for this point
        sec = idx.a[0]
        have = F.canon(mk("fld", model, "board_id_"))
        want = (F.canon(mk("fld", sec, "first")),)
    r = None
    for x in want:
        if have is x or F.equal(have, x):
            r = True
    if r is None and all(F.known(x) for x in want) and F.known(have):
        r = False
    if once(c.w(e), "own", r):
        c.judge(r, "model", "%s in %s" % (kind, name(e)), e, "points of %s" % show(have)[:100],
                "an index of %s is used for the points of %s" % (show(want[-1])[:100], show(have)[:100]))


def residual(c, V, s, once):
    w = (c.w(s.e), s.cls)
    f = s.fields
    V.F.eqs[:] = []
    V.F.assume(s.e.guards())
    k = "%s in %s" % (s.cls, name(s.e))
    if "u" not in f or "x" not in f:
        if once(w, "u"):
            c.und("residual", s.e, k)
        return
    pts = []
    for n, ax in (("u", "x"), ("v", "y"), ("x", "x"), ("y", "y"), ("z", "z")):
        v = f.get(n)
        v = unwrap(v) if v is not None else None
        if v is None or v.op != "fld" or v.a[1] not in AXES:
            if once(w, "n", n):
                c.und("residual", s.e, "%s of %s" % (n, k))
            return
        if v.a[1] != ax:
            if once(w, "ax", n):
                c.bad("residual", k + ": " + n, s.e, "%s of the residual is the %s coordinate" % (n, v.a[1]))
            return
        pts.append(strip(v.a[0]))
    if pts[0] is not pts[1] or pts[2] is not pts[3] or pts[2] is not pts[4]:
        if once(w, "mix"):
            c.bad("residual", k + ": point", s.e, "coordinates of different points are combined: %s" % " / ".join(show(x)[-60:] for x in dict.fromkeys(pts)))
        return
    a, b = V.corner3(pts[2]), V.corner2(pts[0])
    r = agree(V, a, b)
    if a is None and b is not None and unindexed(V, pts[2]):
        r, a = False, (mk("cal"), V.model3(pts[2])[1])
    if once(w, r):
        c.judge(r, "residual", k, s.e, "%s: same corner" % k, "" if r is not False else "model point %s is compared with image point %s" % (corner(a), corner(b)))
    owner(c, V, s, pts[2], s.e, once)


def unwrap(v):
    while v.op in ("cast", "trunc") and v.a:
        v = v.a[0]
    return v


def distances(c, V, once):
    for e in V.it.events:
        vals = [x for x in (e.d.get("val"), e.d.get("cond"), e.d.get("key")) if isinstance(x, Term)]
        vals += [x for x in e.d.get("args") or () if isinstance(x, Term)] if e.kind in ("call", "icall") and e.d.get("f") in ("std::pow", "pow", "sqrt", "std::sqrt", "cv::norm", "std::hypot") else []
        for v in vals:
            for x in subterms(v):
                if not (x.op == "op" and x.a[0] == "-" and len(x.a) == 3):
                    continue
                a, b = unwrap(x.a[1]), unwrap(x.a[2])
                whole = a.op == "elem" and b.op == "elem"
                if not whole and not (a.op == "fld" and b.op == "fld" and a.a[1] in ("x", "y") and b.a[1] in ("x", "y")):
                    continue
                pa, pb = (a, b) if whole else (a.a[0], b.a[0])
                if not once("d", fnline(e), pa, pb, whole or (a.a[1], b.a[1])):
                    continue
                ca, cb = V.corner2(pa), V.corner2(pb)
                if ca is None or cb is None:
                    continue
                V.F.eqs[:] = []
                V.F.assume(e.guards())
                k = "in " + name(e)
                if not whole and a.a[1] != b.a[1]:
                    c.bad("distance", "axes " + k, e, "the %s coordinate of one point is compared with the %s coordinate of the other" % (a.a[1], b.a[1]))
                    continue
                r = agree(V, ca, cb)
                c.judge(r, "distance", k, e, "%s: same corner" % k, "" if r is not False else "point %s is compared with point %s" % (corner(ca), corner(cb)))


def fnline(e):
    return (e.fn["name"] if isinstance(e.fn, dict) else "", e.line)


def parallel(c, V, once):
    reps, ext = {}, {}
    for e in V.it.events:
        if e.kind == "write" and e.loc.op == "fld" and e.loc.a[1] in PAIRED:
            if e.val is EMPTY or e.loc.a[0].op == "this" and e.fn.get("ctor"):
                continue
            reps.setdefault(e.loc.a[0], []).append(e)
        elif e.kind == "push" and e.cont.op == "fld" and e.cont.a[1] in PAIRED:
            ext.setdefault(e.cont.a[0], []).append(e)
    for o, es in reps.items():
        if o.op == "new":
            continue                    # see sources()
        by = {}
        for e in es:
            by.setdefault(e.loc.a[1], []).append(e)
        replaced(c, V, o, by, once)
    for o, es in ext.items():
        extended(c, V, o, es, once)


def replaced(c, V, o, by, once):
    own = V.F.canon(o)
    first = {n: l[-1] for n, l in by.items()}
    info = {}
    for n, e in first.items():
        x = V.at(strip(e.val))
        if x is None or x.op != "elem":
            info[n] = None
            continue
        l = V.lists(x.a[0])
        info[n] = (l[0], l[1], x.a[1]) if l else None
    for n, e in first.items():
        partner = [p for p in PAIRED[n] if has(V, o, p)]
        k = "%s replaced in %s" % (n, name(e))
        i = info[n]
        if i is not None and i[1] != n and once(c.w(e), "what"):
            c.bad("parallel", k, e, "%s is replaced by elements of %s" % (n, i[1]))
            continue
        if not partner:
            continue
        p = partner[0]
        if p not in first:
            if i is not None and i[0] is own and i[2] is P:
                if once(c.w(e), "same"):
                    c.ok("parallel", e, k + ": positions unchanged")
            elif i is not None:
                if once(c.w(e), "alone"):
                    c.bad("parallel", k, e, "only %s is reordered or reduced, %s is not" % (n, p))
            elif once(c.w(e), "u"):
                c.und("parallel", e, k)
            continue
        j = info[p]
        if n != "pts_2d_":
            continue
        r = None
        if i is not None and j is not None:
            r = i[0] is j[0] and (i[2] is j[2])
            if not r and not (known2(i[2]) and known2(j[2])):
                r = None
        if r and guards(e) != guards(first[p]):
            r = None if not implied(e, first[p]) else r
        if once(c.w(e), "rep", r):
            c.judge(r, "parallel", k, e, k + " together with " + p, "%s gets position %s, %s position %s" %
                    (n, show(i[2])[-80:] if i else "?", p, show(j[2])[-80:] if j else "?"))


def known2(p):
    return not any(x.op in ("undef", "bot") for x in subterms(p))


def guards(e):
    return tuple(e.guards())


def implied(a, b):
    return set(a.guards()) == set(b.guards())


def has(V, o, f):
    r = V.c.prog.records.get(V.F.ty(o) or "")
    if r is None:
        return True
    fs = r.get("fields") if isinstance(r, dict) else None
    names = [x.get("n") or x.get("name") for x in fs] if fs else None
    return names is None or f in names


def extended(c, V, o, es, once):
    by = {}
    for e in es:
        by.setdefault(e.cont.a[1], []).append(e)
    if "pts_2d_" not in by or len(by) < 2:
        e = es[0]
        if once(c.w(e), "lone"):
            c.bad("parallel", "%s extended in %s" % (e.cont.a[1], name(e)), e, "%s is extended, its parallel list is not" % e.cont.a[1])
        return
    p2 = by["pts_2d_"]
    pid = by.get("pts_id_") or by.get("charuco_id_")
    if len(p2) != len(pid):
        if once(c.w(p2[0]), "count"):
            c.und("parallel", p2[0], "extended %d and %d times" % (len(p2), len(pid)))
        return
    for a, b in zip(p2, pid):
        k = "%s extended in %s" % (b.cont.a[1], name(a))
        V.F.eqs[:] = []
        V.F.assume(a.guards())
        if [l.uid for l in a.loops()] != [l.uid for l in b.loops()] or set(a.guards()) != set(b.guards()):
            if once(c.w(a), "ctx"):
                extra = [g for g in a.guards() if g not in b.guards()] + [g for g in b.guards() if g not in a.guards()]
                c.judge(False if extra and len(a.loops()) == len(b.loops()) else None, "parallel", k, a, k, "one list is extended without the other, depending on %s" % show(extra[0])[:120] if extra else "")
            continue
        ca = V.corner2(a.val)
        cb, via = idcorner(V, b.val)
        bv = strip(b.val)
        what = V.lists(bv.a[0]) if bv.op == "elem" else None
        if what and what[1] != b.cont.a[1]:
            if once(c.w(a), "kind"):
                c.bad("parallel", k + ": kind", b, "%s is extended by %s, an index of another model" % (b.cont.a[1], what[1]))
            continue
        if bv.op == "elem" and bv.a[1].op == "mkpair" and len(bv.a[1].a) == 2 and noid(bv.a[1].a[1]):
            if once(c.w(a), "noid"):
                c.bad("parallel", k + ": index", b, "the id is looked up for point %s, not for the id of a corner" % show(bv.a[1].a[1])[:80])
            continue
        r = agree(V, ca, cb)
        if once(c.w(a), "ext", r):
            c.judge(r, "parallel", k, a, k + ": same corner", "" if r is not False else "the image point is %s, the id that of %s" % (corner(ca), corner(cb)))
        if via is not None and ca is not None:
            have, want = V.F.canon(via), V.F.canon(mk("fld", ca[0], "board_id_"))
            r = True if have is want or V.F.equal(have, want) else False if V.F.known(have) and V.F.known(want) else None
            if once(c.w(a), "brd", r):
                c.judge(r, "parallel", k + ": board", a, k + ": board of the observation", "the id is looked up for board %s" % show(have)[:100])


def idcorner(V, v):
    """(corner, board) a pushed id refers to"""
    v = strip(v)
    if v.op == "elem":
        l = V.lists(v.a[0])
        if l and l[1] in ("charuco_id_", "pts_id_"):
            return (l[0], V.F.canon(v.a[1])), None
        if v.a[1].op == "mkpair" and len(v.a[1].a) == 2:
            r = V.idof(v.a[1].a[1])
            if r:
                return (r[0], r[1]), v.a[1].a[0]
    if v.op in ("lastof", "fix", "ite"):
        for x in subterms(v):
            if x.op == "mkpair" and len(x.a) == 2 and V.idof(x.a[1]):
                pass
    return None, None


# ------------------------------------------------------------------- new observations
def sources(c, V, once):
    obs = {}
    for e in V.it.events:
        if e.kind == "write" and e.loc.op == "fld" and e.loc.a[0].op == "new" and e.loc.a[1] in ("pts_2d_", "charuco_id_") and e.val is not EMPTY:
            obs.setdefault(e.loc.a[0], {})[e.loc.a[1]] = e
    for o, d in obs.items():
        if len(d) < 2:
            continue
        a, b = d["pts_2d_"], d["charuco_id_"]
        k = "new observation in %s" % (V.fn["name"].split("::")[-1])
        x, y = norm(strip(a.val)), norm(strip(b.val))
        dets = detections(V)
        va, vb = base(a.val), base(b.val)
        if dets and va is not None and vb is not None:
            r, msg = detected(V, o, dets, va, vb)
            if once(c.w(a), V.fn["name"], r):
                c.judge(r, "source", k, a, k, msg)
            continue
        if x is None or y is None:
            r = None
        elif x == y:
            r = True
        else:
            r = differ(x, y)
        if once(c.w(a), V.fn["name"], r):
            c.judge(r, "source", k, a, k, "image points and ids come from different detections")


def base(t, d=0):
    """local list (and entry) a value was made from: (variable, key)"""
    if d > 14:
        return None
    if t.op == "agg":
        return base(t.a[0], d + 1)
    if t.op == "ite":
        rs = {base(x, d + 1) for x in t.a[1:]} - {None}
        return next(iter(rs)) if len(rs) == 1 else None
    if t.op in ("elem", "var", "lam", "filled"):
        k = None
        while t.op in ("elem", "lam", "filled", "agg"):
            if t.op == "elem":
                if k is not None:
                    return None
                k = t.a[1]
            t = t.a[0] if t.op in ("elem", "agg") else t.a[1]
        return (t, k) if t.op == "var" else None
    return None


def place(l):
    """(variable, key) of a location"""
    if isinstance(l, Term):
        if l.op == "var":
            return l, None
        if l.op == "elem" and l.a[0].op == "var":
            return l.a[0], l.a[1]
    return None


def board(l):
    for x in subterms(l) if isinstance(l, Term) else ():
        if x.op == "elem" and x.a[0].op == "fld" and x.a[0].a[1] == "boards_3d_":
            return x.a[1]
    return None


def detections(V):
    r = []
    for e in V.it.events:
        if e.kind in ("call", "icall") and e.d.get("f") == "cv::aruco::interpolateCornersCharuco" and len(e.d.get("locs") or ()) >= 6:
            ks = [("board", board(e.locs[3]) or board(e.args[3]))] + [(n, place(e.locs[i])) for n, i in
                                                                      (("marker corners", 0), ("marker ids", 1), ("corners", 4), ("corner ids", 5))]
            r.append((e, dict(ks)))
    return r


def detected(V, o, dets, va, vb):
    for e, d in dets:
        if d["corners"] is None or d["corner ids"] is None:
            continue
        if va[0] is d["corner ids"][0] or vb[0] is d["corners"][0]:
            return False, "the lists of points and ids are exchanged"
        if va[0] is not d["corners"][0] or vb[0] is not d["corner ids"][0]:
            continue
        ks = {"the corners of the detection": d["corners"][1], "the ids of the detection": d["corner ids"][1], "the board": d["board"],
              "the recorded points": va[1], "the recorded ids": vb[1]}
        if d["marker corners"] and d["marker ids"]:
            ks["the marker corners"], ks["the marker ids"] = d["marker corners"][1], d["marker ids"][1]
        for m in V.it.events:
            if m.kind in ("call", "icall") and m.d.get("f") == "cv::aruco::detectMarkers" and len(m.d.get("locs") or ()) >= 4:
                p, q = place(m.locs[2]), place(m.locs[3])
                if p and q and d["marker corners"] and p[0] is d["marker corners"][0]:
                    ks["the detected marker corners"], ks["the detected marker ids"], ks["the dictionary"] = p[1], q[1], board(m.locs[1]) or board(m.args[1])
        b = [x.val for x in V.it.events if x.kind == "write" and x.loc.op == "fld" and x.loc.a[0] is o and x.loc.a[1] == "board_id_"]
        if len(b) == 1:
            ks["the recorded board id"] = b[0]
        ks = {n: k for n, k in ks.items() if k is not None}
        ns = list(ks)
        for n in ns[1:]:
            if ks[n] is not ks[ns[0]]:
                if known(ks[n]) and known(ks[ns[0]]):
                    return False, "%s has index %s, %s index %s" % (ns[0], show(ks[ns[0]])[:60], n, show(ks[n])[:60])
                return None, ""
        return True, ""
    return None, ""


def norm(t, d=0):
    """where a list comes from, the same for the lists of points and of ids of one detection; None: unknown"""
    if d > 14:
        return None
    if t.op == "agg":
        return norm(t.a[0], d + 1)
    if t.op == "arg":
        return ("args",)
    if t.op == "filled":
        return norm(t.a[1], d + 1)
    if t.op == "lam":
        return ("list",)
    if t.op == "ite":
        a, b = norm(t.a[1], d + 1), norm(t.a[2], d + 1)
        return a if a == b else None if None in (a, b) else ("ite", t.a[0], a, b)
    if t.op == "elem":
        a = norm(t.a[0], d + 1)
        return None if a is None else ("elem", a, t.a[1])
    if t.op == "out":
        if t.a[0] == "cv::operator>>":
            s = t.a[2]
            return ("read", s.a[0]) if s.op == "elem" and isconst(s.a[1]) else None
        return ("out", t.a[0]) + tuple(x for x in t.a[2:] if isinstance(x, Term) and x.op not in ("undef", "lam") and x is not EMPTY)
    return None


def differ(x, y):
    if x[0] == y[0] == "elem":
        if x[1] == y[1]:
            return False
        return differ(x[1], y[1])
    if x[0] == y[0] == "read":
        return False
    return None
