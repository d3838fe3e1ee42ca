"""C21: each camera is processed with its own camera model and intrinsics."""
from sa.core import *
from sa.views import *
from sa.engine import rebuild

OPQ = tuple(AVG) + GRAPH


def run(c):
    c.rule("dispatch", "a library function of one camera model is reached only for the selector value of that model")
    c.rule("model", "camera matrix, distortion coefficients and model selector of a call belong to the same camera")
    c.rule("view", "the camera of a call is the camera of the observation whose points and pose are used")
    c.rule("residual", "the model selector and the intrinsics of a residual belong to the camera that observed its image point")
    c.rule("config", "every camera is created with the model configured for it")
    c.rule("initial", "an initial calibration uses observations and image size of the camera whose intrinsics it sets")
    persp = perspective(c)
    dispatch(c, persp)
    seen = set()
    for fn, it in c.stages(opaque=OPQ):
        V = Views(c, fn, it)
        for s in V.sites():
            if s.kind == "residual":
                residual(c, V, fn, s, seen)
            else:
                call(c, V, fn, s, seen, persp)
    config(c)
    c.need("dispatch", 4)
    c.need("model", 2)
    c.need("residual", 3)
    return "other", ("Camera identity analysis over symbolically evaluated functions: every call that takes camera parameters and every residual is "
                     "checked for one camera in all roles.")


def perspective(c):
    """project functions that use one model's library functions without selecting: {name: model}"""
    r = {}
    for name in ("McCalib::ransacP3P", "McCalib::ransacTriangulation"):
        if c.has(name):
            r[name] = 0
    return r


def once(seen, *k):
    if k in seen:
        return False
    seen.add(k)
    return True


def sels(V, guards):
    return V.selectors(guards)


def dispatch(c, persp):
    """in every function, with nothing opaque"""
    seen = set()
    for fn in c.roots():
        if fn["name"].split("::")[-1] in ("main", "runCalibrationWorkflow"):
            continue
        own = fn["name"] in SELECT or fn["name"] in persp
        it = c.it(fn, opaque=OPQ if not own else tuple(x for x in OPQ if x != fn["name"]))
        V = Views(c, fn, it)
        for e in it.events:
            f = e.d.get("f") if e.kind in ("call", "icall") else None
            want = FIXED[f][0] if f in FIXED else persp.get(f)
            if want is None or fn["name"] in persp:
                continue
            gs = list(e.guards())
            ss = sels(V, gs)
            s = next((x for x in V.sites() if x.e is e), None)
            key = "%s in %s" % (f.split("::", 1)[-1], e.fn["name"] if isinstance(e.fn, dict) else fn["name"])
            w = c.w(e)
            if not ss:
                if s is not None and s.kind in ("pnp", "project") and want == 0 and nodist(s):
                    if once(seen, w, "n"):
                        c.ok("dispatch", e, "%s without distortion" % f)
                    continue
                if s is not None and s.D is not None and (V.cameras(s.D) or any(x.op == "arg" for x in subterms(s.D))):
                    if once(seen, w, "b"):
                        c.bad("dispatch", key, e, "%s is reached for every camera model" % f)
                else:
                    if once(seen, w, "u"):
                        c.und("dispatch", e, f)
                continue
            verdict, msg = True, ""
            for x in ss:
                can = [v for v in (0, 1) if possible(gs, x, v)]
                if s is not None and nodist(s) and want == 0:
                    # undistorted points: the model was applied before
                    src = s.p2
                    fish = src is not None and any("fisheye::undistortPoints" in str(y.a[0]) for y in subterms(src) if y.op in ("out", "call"))
                    if fish and can == [1]:
                        continue
                    if not fish and can == [1]:
                        verdict, msg = None, "undistorted by unknown means"
                        continue
                if can != [want]:
                    verdict, msg = False, "%s (model %d) is reached when %s is %s" % (f, want, show(x)[:80], " or ".join(map(str, can)) or "neither")
            if once(seen, w, f, verdict, msg):
                c.judge(verdict, "dispatch", key, e, "%s only for model %d" % (f, want), msg)
    # both values reach something
    for name, (p3, p2, r, t, k, d, m) in SELECT.items():
        if not c.has(name):
            continue
        fn = c.prog.fn(name)
        it = c.it(fn, opaque=tuple(x for x in OPQ if x != name))
        V = Views(c, fn, it)
        for v in (0, 1):
            hit = [e for e in it.events if e.kind in ("call", "icall") and (e.d.get("f") in FIXED or e.d.get("f") in persp) and
                   all(possible(list(e.guards()), x, v) for x in sels(V, e.guards()))]
            if hit:
                c.ok("dispatch", hit[0], "%s handles model %d" % (name, v))
            else:
                c.bad("dispatch", "model %d of %s" % (v, name), fn, "%s does nothing for model %d" % (name, v))


def possible(guards, sel, v):
    for g in guards:
        memo = {}
        h = sub(g, sel, v)
        if ev3(h, {}) is False:
            return False
    return True


def sub(g, sel, v):
    if g is sel:
        return C(v)
    if g.op == "op" and g.a[0] in ("==", "!=") and len(g.a) == 3 and (g.a[1] is sel or g.a[2] is sel):
        o = g.a[2] if g.a[1] is sel else g.a[1]
        if isconst(o):
            r = o.a[0] == v
            return C(r if g.a[0] == "==" else not r)
    if g.op == "op" and g.a[0] in ("<", ">", "<=", ">=") and len(g.a) == 3 and (g.a[1] is sel or g.a[2] is sel):
        x, y = (C(v) if q is sel else q for q in g.a[1:])
        if isconst(x) and isconst(y):
            return C({"<": x.a[0] < y.a[0], ">": x.a[0] > y.a[0], "<=": x.a[0] <= y.a[0], ">=": x.a[0] >= y.a[0]}[g.a[0]])
    if g.op in ("op", "&&", "||", "ite", "!"):
        return rebuild(g.op, tuple(sub(x, sel, v) if isinstance(x, Term) else x for x in g.a))
    return g


def nodist(s):
    """the call applies no distortion"""
    d = s.D
    if d is None:
        return False
    if d.op in ("lit", "list", "zeros", "mat0", "empty"):
        return all(isconst(x) and x.a[0] == 0 for x in (d.a[2:] if d.op == "lit" else d.a)) if d.op in ("lit", "list") else True
    if d.op == "ctor" and len(d.a) == 1:
        return True
    return False


def call(c, V, fn, s, seen, persp):
    if s.kind == "calibrate":
        return initial(c, V, fn, s, seen)
    w = (c.w(s.e), s.f)
    key = "%s in %s" % (s.f.split("::", 1)[-1], s.e.fn["name"] if isinstance(s.e.fn, dict) else fn["name"])
    cams = {}
    for n, t in (("camera matrix", s.K), ("distortion coefficients", s.D)):
        if t is None:
            continue
        r = V.cameras(t)
        if len(r) == 1:
            cams[n] = next(iter(r))
        elif len(r) > 1:
            l = list(r)
            if V.F.same(l[0], l[1]) is False:
                if once(seen, w, "mix", n):
                    c.bad("model", key, s.e, "the %s mix the intrinsics of two cameras: %s and %s" % (n, show(l[0][1])[:80], show(l[1][1])[:80]))
                return
    if s.model is not None:
        m = V.modelcam(s.model)
        if m is not None:
            cams["model"] = m
        elif isconst(s.model) or s.model.op == "fld" and s.model.a[1] != "distortion_model_":
            if once(seen, w, "const"):
                c.bad("model", key, s.e, "%s is used as the camera model" % show(s.model)[:100])
            return
    elif s.fixed is not None and not nodist(s):
        ss = sels(V, s.e.guards())
        ms = {V.modelcam(x) for x in ss} - {None}
        if len(ms) == 1:
            cams["model"] = next(iter(ms))
    if len(cams) < 2:
        if cams and once(seen, w, "u"):
            c.und("model", s.e, key)
        return
    names = list(cams)
    del V.F.eqs[:]
    V.F.assume(s.e.guards())
    verdict = True
    for n in names[1:]:
        r = V.F.same(cams[names[0]], cams[n])
        if r is False:
            if once(seen, w, "bad", n):
                c.bad("model", key, s.e, "%s of camera %s, %s of camera %s" % (names[0], show(cams[names[0]][1])[:100], n, show(cams[n][1])[:100]))
            return
        if r is None:
            verdict = None
    if once(seen, w, "model", verdict):
        (c.ok if verdict else c.und)("model", s.e, "%s: one camera %s" % (s.f, show(cams[names[0]][1])[:80]))
    view(c, V, fn, s, cams[names[0]], key, w, seen)


def view(c, V, fn, s, cam, key, w, seen):
    """the camera is the one of the observation"""
    owner, how = None, ""
    if s.p2 is not None:
        r = V.corner2(V.at(s.p2))
        if r is not None:
            owner, how = V.F.cam(mk("fld", r[0], "camera_id_")), "the image points were seen by camera %s"
    if owner is None and s.kind == "project":
        try:
            a, b = V.F.rtype(s.R), V.F.ttype(s.t)
        except Mismatch:
            a = b = None
        for x in (a, b):
            if x is not None and x != ID and x[0][0] == "C":
                r = V.F.same(x[0], cam)
                if owner is None or r is False:
                    owner, how = x[0], "the pose is that of camera %s"
    if owner is None:
        if once(seen, w, "vu"):
            c.und("view", s.e, key)
        return
    r = V.F.same(owner, cam)
    if once(seen, w, "view", r):
        c.judge(r, "view", key, s.e, "%s with the camera of the observation" % s.f,
                "the intrinsics are those of camera %s, " % show(cam[1])[:100] + how % show(owner[1])[:100])


def residual(c, V, fn, s, seen):
    w = (c.w(s.e), s.cls)
    key = "%s in %s" % (s.cls, s.e.fn["name"] if isinstance(s.e.fn, dict) else fn["name"])
    roles = {}
    f = s.fields
    if "distortion_type" in f:
        m = V.modelcam(f["distortion_type"])
        if m is not None:
            roles["the model selector"] = m
        elif isconst(f["distortion_type"]) or f["distortion_type"].op == "fld":
            if once(seen, w, "const"):
                c.bad("residual", key, s.e, "the residual uses %s as the camera model" % show(f["distortion_type"])[:100])
            return
    for n, v in f.items():
        cs = V.cameras(v)
        if len(cs) == 1:
            roles["the intrinsic %s" % n] = next(iter(cs))
    for b in s.params:
        if b.op == "fld" and b.a[1] == "intrinsics_":
            roles["the intrinsic parameter block"] = V.camid(b.a[0])
    o = V.corner2(f["u"].a[0]) if "u" in f and f["u"].op == "fld" else None
    if o is not None:
        roles["the image point"] = V.F.cam(mk("fld", o[0], "camera_id_"))
    for b in s.params:
        l = b
        t = V.F.slot(l)
        if t is not None and l.op == "elem" and l.a[0].op == "fld" and l.a[0].a[1] == "relative_camera_pose_":
            roles["the camera pose"] = t[0]
        elif t is not None and l.op == "fld":
            roles["the pose of the observation"] = t[0]
    if len(roles) < 2:
        if once(seen, w, "u"):
            c.und("residual", s.e, key)
        return
    del V.F.eqs[:]
    V.F.assume(s.e.guards())
    names = list(roles)
    verdict = True
    for n in names[1:]:
        r = V.F.same(roles[names[0]], roles[n])
        if r is False:
            if once(seen, w, n):
                c.bad("residual", key, s.e, "%s is of camera %s, %s of camera %s" % (names[0], show(roles[names[0]][1])[:100], n, show(roles[n][1])[:100]))
            return
        if r is None:
            verdict = None
    if once(seen, w, verdict):
        (c.ok if verdict else c.und)("residual", s.e, "%s: %s of one camera" % (s.cls, ", ".join(names)))


def initial(c, V, fn, s, seen):
    w = (c.w(s.e), s.f)
    key = "%s in %s" % (s.f.split("::", 1)[-1], s.e.fn["name"] if isinstance(s.e.fn, dict) else fn["name"])
    del V.F.eqs[:]
    V.F.assume(s.e.guards())
    cams = {}
    for i, n in ((2, "the image size"),):
        if i < len(s.e.args):
            r = {V.camid(x.a[0]) for x in subterms(s.e.args[i]) if x.op == "fld" and x.a[1] in ("im_cols_", "im_rows_")}
            if len(r) == 1:
                cams[n] = next(iter(r))
    for i, n in ((0, "the model points"), (1, "the image points")):
        r = set()
        for x in subterms(s.e.args[i]):
            if x.op == "fld" and x.a[1] == "board_observations_" and V.F.ty(x.a[0]) == "McCalib::Camera":
                r.add(V.camid(x.a[0]))
        if len(r) == 1:
            cams[n] = next(iter(r))
    ms = {V.modelcam(x) for x in sels(V, s.e.guards())} - {None}
    if len(ms) == 1:
        cams["the model"] = next(iter(ms))
    # where the result goes
    for e in V.it.events:
        if e.kind == "write" and e.seq > s.e.seq and e.loc.op == "elem" and e.loc.a[0].op == "fld" and e.loc.a[0].a[1] == "intrinsics_":
            if any(x.op == "out" and x.a[0] == s.f for x in subterms(e.val)):
                cams.setdefault("the stored intrinsics", V.camid(e.loc.a[0].a[0]))
    names = list(cams)
    if len(names) < 2:
        if once(seen, w, "u"):
            c.und("initial", s.e, key)
        return
    verdict = True
    for n in names[1:]:
        r = V.F.same(cams[names[0]], cams[n])
        if r is False:
            if once(seen, w, n):
                c.bad("initial", key, s.e, "%s are of camera %s, %s of camera %s" % (names[0], show(cams[names[0]][1])[:90], n, show(cams[n][1])[:90]))
            return
        if r is None:
            verdict = None
    if once(seen, w, verdict):
        (c.ok if verdict else c.und)("initial", s.e, "%s: %s of one camera" % (s.f, ", ".join(names)))


def config(c):
    """cameras created by the constructor"""
    for fn in c.fns():
        if not fn.get("ctor") or fn.get("cls") != "McCalib::Calibration":
            continue
        it = c.it(fn)
        for e in it.events:
            if e.kind == "mapins" or e.kind == "write":
                pass
            loc = e.d.get("loc") if e.kind == "write" else mk("elem", e.cont, e.key) if e.kind == "mapins" else None
            if loc is None or loc.op != "elem" or loc.a[0].op != "fld" or loc.a[0].a[1] != "cams_" or "val" not in e.d:
                continue
            v = e.val
            if v.op != "new":
                c.und("config", e, show(v)[:100])
                continue
            key = "camera created in the constructor"
            fs = {x.loc.a[1]: x.val for x in it.events if x.kind == "write" and x.loc.op == "fld" and x.loc.a[0] is v and x.seq < e.seq}
            i = fs.get("cam_idx_")
            m = fs.get("distortion_model_")
            if i is not None:
                c.judge(True if i is loc.a[1] else False if known(i) and known(loc.a[1]) else None, "config", key + ": id", e, "camera stored under its id",
                        "camera %s is stored under %s" % (show(i)[:60], show(loc.a[1])[:60]))
            if m is None:
                c.und("config", e, "no model")
                continue
            r, msg = chosen(m, loc.a[1])
            c.judge(r, "config", key + ": model", e, "model %s" % show(m)[:120], msg)


def known(t):
    return all(x.op in ("i", "k", "op", "fld", "this", "arg", "size", "L", "var", "elem", "cast", "trunc", "out", "obj", "undef", "neg", "+", "-") or isconst(x) for x in subterms(t))


def key_of(t, key):
    """is the term read from the file entry of that name"""
    return any(x.op == "elem" and isconst(x.a[1]) and x.a[1].a[0] == key or isconst(x) and x.a[0] == key for x in subterms(t))


def common(m):
    return m.op == "out" and key_of(m, "distortion_model") and not key_of(m, "distortion_per_camera")


def when_empty(t):
    """True if the condition means that the list is empty, False if it means the opposite, None otherwise"""
    if t.op == "isempty":
        return True
    if t.op == "op" and t.a[0] == "!":
        r = when_empty(t.a[1])
        return None if r is None else not r
    if t.op == "op" and len(t.a) == 3 and t.a[0] in ("==", "!=", "<", ">", "<=", ">="):
        o, a, b = t.a
        if isconst(a) and not isconst(b):
            o, a, b = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o), b, a
        if not isconst(b) or a.op != "size":
            return None
        return {("==", 0): True, ("!=", 0): False, (">", 0): False, ("<", 1): True, ("<=", 0): True, (">=", 1): False}.get((o, b.a[0]))
    return None


def chosen(m, idx):
    """does the model come from the camera's own entry of the configured list (or, without a list, the common setting)"""
    if m.op == "ite":
        com = [common(x) for x in m.a[1:]]
        if sorted(com) == [False, True]:
            r, msg = chosen(m.a[2 if com[0] else 1], idx)
            if r is not True:
                return r, msg
            em = when_empty(m.a[0])
            if em is None:
                return None, ""
            return em is com[0], "the models configured per camera are used only when there are none"
        for x in m.a[1:]:
            r, msg = chosen(x, idx)
            if r is not True:
                return r, msg
        return True, ""
    if m.op == "elem":
        if m.a[1] is not idx:
            return (False if known(m.a[1]) else None), "the model of camera %s is entry %s of the list" % (show(idx)[:60], show(m.a[1])[:60])
        return listed(m.a[0])
    if isconst(m):
        return False, "every camera gets model %s" % show(m)
    if common(m):
        return False, "the models configured per camera are not used"
    return None, ""


def listed(l):
    """the list holds the file's per-camera models, or the common one for every camera"""
    if l.op == "ite":
        for x in l.a[1:]:
            r = listed(x)
            if r[0] is not True:
                return r
        return True, ""
    if l.op == "vec" and len(l.a) == 2:
        if isconst(l.a[1]):
            return False, "without a list, every camera gets model %s whatever is configured" % show(l.a[1])
        return True, ""
    return True, ""
