"""C01: rigid poses are composed in consistent reference frames."""
from sa.core import *
from sa.posetypes import *

SETS = ("pose_", "group_pose_", "object_pose_", "relative_camera_pose_", "relative_board_pose_")
OPQ = tuple(x for x in AVG) + GRAPH


def run(c):
    c.rule("chain", "the operands of every product of poses meet in the same frame, with operands looked up under the matching ids")
    c.rule("slot", "the end frames of a stored pose are those of the place where it is stored")
    c.rule("pairs", "all poses of a table of pair poses have the same orientation with respect to their key")
    c.rule("instant", "a relative pose is derived from observations of the same frame")
    c.rule("handeye", "hand-eye estimation relates the reference frames of the two lists of poses")
    its, hand, pairs, done = tables(c)
    seen = set()
    for fn, it, e, field, r in done.values():
        w = (c.w(e), field, fn["name"])
        key = "%s in %s" % (field, fnof(e, fn))
        if isinstance(r, Mismatch):
            c.bad("chain", key, e, "the pose stored in %s: %s" % (field, r))
        elif isinstance(r, tuple):
            c.bad("pairs", key, e, r[1])
        elif r in ("ab", "ba"):
            if pairs.get(field) != r:
                c.bad("pairs", key, e, "%s holds poses second <- first and first <- second of its key" % field)
            elif (w, "ok") not in seen:
                seen.add((w, "ok"))
                c.ok("pairs", e, "%s: %s of its key" % (field, "second <- first" if r == "ba" else "first <- second"))
        elif (w, "u") not in seen:
            seen.add((w, "u"))
            c.und("pairs", e, field)
        if e.kind == "push" or e.val.op in ("mul", "inv"):
            instant(c, fn, it, e, key, seen)
    # poses of cameras, boards, objects
    for fn, it in its:
        F = Frames(c, fn, it, pairs, hand)
        for e in it.events:
            if e.kind not in ("write", "mapins") or "val" not in e.d:
                continue
            loc = e.loc if e.kind == "write" else mk("elem", e.cont, e.key)
            if root(loc).op == "var" or e.val is EMPTY or e.val.op in ("undef", "zero"):
                continue
            s = F.slot(loc)
            if s is None:
                continue
            stored(c, F, fn, e, loc, s, seen)
    c.need("chain", 0)
    c.need("slot", 8)
    c.need("pairs", 5)
    return "other", ("Frame typing of symbolically evaluated functions: every stored pose is a term over pose slots whose frames are given by the "
                     "ids of their owners; chains along graph paths are typed by induction over the position on the path.")


def tables(c):
    """orientation of the tables of pair poses, to a fixed point (tables filled from other tables)"""
    hand = handeye(c)
    pairs = {}
    its = list(c.stages(opaque=OPQ))
    sites = []
    for fn, it in its:
        for e in it.events:
            if e.kind in ("push", "write", "mapins") and "val" in e.d and e.val is not EMPTY:
                p = target(fn, it, e)
                if p:
                    sites.append((fn, it, e, p))
    done = {}
    for rnd in range(4):
        for fn, it, e, (field, key) in sites:
            F = Frames(c, fn, it, pairs, hand)
            r = orientation(F, e, field, key)
            if isinstance(r, str) and r in ("ba", "ab"):
                if field not in pairs:
                    pairs[field] = r
            done[(e.where(c.prog), field, id(e))] = (fn, it, e, field, r)
    return its, hand, pairs, done


def fnof(e, fn):
    return (e.stack[-1][0] if getattr(e, "stack", None) and e.stack and isinstance(e.stack[-1], tuple) else None) or e.fn["name"] if isinstance(e.fn, dict) else fn["name"]


def target(fn, it, e):
    """(table, key) when the event stores a pair pose"""
    t = e.loc if e.kind == "write" else e.cont
    if e.kind == "mapins":
        t = mk("elem", e.cont, e.key)
    if t.op == "elem" and t.a[0].op == "fld" and t.a[0].a[1] in PAIRKIND:
        return t.a[0].a[1], t.a[1]
    return None


def orientation(F, e, field, key):
    v = e.val
    if e.kind != "push" and field.endswith("pairs_"):
        v2 = v
        # whole list assigned
        return None
    res = None
    cs = F.cases(v)
    if cs is None:
        return None
    a, b = None, None
    for gs, x in cs:
        del F.eqs[:]
        F.assume(e.guards())
        F.assume(gs)
        try:
            t = F.ptype(x)
        except Mismatch as m:
            return m
        if t is None:
            return None
        if t == ID:
            return ("bad", "the identity is stored as the pose of a pair")
        a, b = F.pairframes(field, key)
        fwd = (F.same(t[0], b), F.same(t[1], a))
        rev = (F.same(t[0], a), F.same(t[1], b))
        if fwd == (True, True) and rev != (True, True):
            r = "ba"
        elif rev == (True, True) and fwd != (True, True):
            r = "ab"
        elif False in fwd and False in rev:
            return ("bad", "the pose (%s) is stored in %s under the key (%s, %s)" % (F.sh(t), field, show(a[1])[:100], show(b[1])[:100]))
        else:
            return None
        if res not in (None, r):
            return ("bad", "the alternatives stored in %s have different orientations" % field)
        res = r
    return res


def instant(c, fn, it, e, key, seen):
    F = Frames(c, fn, it, {})
    F.assume(e.guards())
    ids = {}

    def parts(t):
        yield t
        if t.op in ("mul", "inv", "pose", "rod", "R", "t", "v3", "ite", "elem"):
            for x in t.a:
                if isinstance(x, Term):
                    yield from parts(x)
    for t in dict.fromkeys(parts(e.val)):
        o = None
        if t.op == "fld" and t.a[1] in ("pose_", "group_pose_") and F.ty(t.a[0]) in (BO, OO):
            o = F.canon(mk("fld", t.a[0], "frame_id_"))
        elif t.op == "elem" and t.a[0].op == "fld" and t.a[0].a[1] == "object_pose_":
            g = t.a[0].a[0]
            o = F.canon(g)
            if o.op == "elem" and o.a[0].op == "fld" and o.a[0].a[1] == "cams_group_obs_":
                o = F.canon(mk("fld", o.a[1], "second"))
        if o is not None:
            ids[o] = t
    if len(ids) < 2:
        if ids and (c.w(e), fn["name"], "i") not in seen:
            seen.add((c.w(e), fn["name"], "i"))
            c.ok("instant", e, "one frame: %s" % show(next(iter(ids)))[:100])
        return
    a, b = list(ids)[:2]
    c.judge(True if F.equal(a, b) else False if F.known(a) and F.known(b) else None, "instant", "instant of " + key, e, "same frame",
            "poses of the frames %s and %s are combined" % (show(a)[:120], show(b)[:120]))


def stored(c, F, fn, e, loc, s, seen):
    name = e.fn["name"] if isinstance(e.fn, dict) else str(e.fn)
    lab = loc.a[1] if loc.op == "fld" else F.loc(loc.a[0]).a[1]
    key = "%s of %s in %s" % (lab, s[0][0] + s[1][0], fn["name"])
    w = c.w(e)
    cs = F.cases(e.val)
    if cs is None:
        return c.und("slot", e, "too many cases in %s" % fn["name"])
    verdict = True
    for gs, x in cs:
        del F.eqs[:]
        F.assume(e.guards())
        F.assume(gs)
        try:
            t = F.six(x)
        except Mismatch as m:
            return c.bad("chain", key, e, "the pose stored in %s: %s" % (lab, m))
        if t is None:
            verdict = None
            continue
        s2 = F.slot(loc)
        if t == ID:
            if identity_ok(F, e, gs, s2):
                continue
            return c.bad("slot", key, e, "the identity is stored as %s" % F.sh(s2))
        for i, n in ((0, "target"), (1, "source")):
            r = F.same(t[i], s2[i])
            if r is False:
                return c.bad("slot", key, e, "the pose (%s) is stored where %s belongs" % (F.sh(t), F.sh(s2)))
            if r is None:
                verdict = None
    if verdict:
        if (w, lab, fn["name"], "ok") not in seen:
            seen.add((w, lab, fn["name"], "ok"))
            c.ok("slot", e, "%s: %s in %s" % (lab, F.sh(s), fn["name"]))
    elif (w, lab, fn["name"], "u") not in seen:
        seen.add((w, lab, fn["name"], "u"))
        c.und("slot", e, "%s in %s := %s" % (lab, fn["name"], show(e.val)[:150]))


def identity_ok(F, e, gs, s):
    if isinstance(e.fn, dict) and e.fn.get("ctor"):
        return True
    if root(e.loc if e.kind == "write" else e.cont).op == "new" and not gs and not e.loops():
        return True
    if F.same(s[0], s[1]) is not False:
        return True
    for g in list(gs) + list(e.guards()):
        for x in subterms(g):
            if x.op in ("isempty", "size", "==", "in", "call") or x.op == "op" and x.a[0] in ("==", "!="):
                return True
    return False


def handeye(c):
    """summaries of the functions that end in a hand-eye calibration: frames of the result in terms of the two lists"""
    hand = {}
    for name in ("McCalib::handeyeCalibration", "McCalib::handeyeBootstraptTranslationCalibration"):
        if not c.has(name):
            continue
        fn = c.prog.by_name[name][0]
        lists = [i for i, p in enumerate(fn["params"]) if "vector<cv::Mat" in p["t"]]
        if len(lists) != 2:
            continue
        it = c.it(fn, opaque=tuple(x for x in AVG if "handeye" not in x.lower() or x == name) + GRAPH, tag="he")
        F = Frames(c, fn, it, {}, {})
        res = []
        for e in it.events:
            if e.kind != "ret" or e.d.get("depth") != 1 or e.val.op == "undef":
                continue
            for gs, x in F.cases(e.val) or [((), e.val)]:
                del F.eqs[:]
                try:
                    t = F.ptype(x)
                except Mismatch as m:
                    c.bad("handeye", "frames in " + name, e, "the result: %s" % m)
                    return hand
                res.append((e, t))
        def role(f):
            if f[0] != "A" or f[1].op != "arg":
                return None
            i = f[1].a[1]
            i = i.a[0] if isinstance(i, Term) else i
            return (lists.index(i), f[2]) if i in lists else None
        roles = []
        for e, t in res:
            if t is None or t == ID:
                c.und("handeye", e, "frames of the result")
                roles.append(None)
                continue
            r = (role(t[0]), role(t[1]))
            roles.append(r)
            if None in r:
                c.und("handeye", e, F.sh(t))
            elif {r[0][0], r[1][0]} == {0, 1} and r[0][1] == r[1][1] == "d":
                c.ok("handeye", e, "reference frame of list %d <- that of list %d" % (r[0][0] + 1, r[1][0] + 1))
            else:
                c.bad("handeye", "frames in " + name, e, "the result relates %s, not the reference frames of the two lists" % (r,))
        if roles and None not in roles and len(set(roles)) == 1 and None not in roles[0]:
            def use(F, t, d, r=roles[0], lists=tuple(lists)):
                args = t.a[1:]
                ts = [F.listtype(args[i], d + 1) for i in lists]
                if None in ts or ID in ts:
                    return None
                pick = lambda q: ts[q[0]][0 if q[1] == "d" else 1]
                return pick(r[0]), pick(r[1])
            hand[name] = use
        elif roles and None not in roles and len(set(roles)) > 1:
            c.bad("handeye", "alternatives of " + name, res[0][0], "the alternatives relate different frames: %s" % sorted(set(map(str, roles))))
    return hand
