"""C17: a board observation rejected by pose estimation is not used as a measurement afterwards."""
from sa.core import *

BO = "McCalib::BoardObs"
OO = "McCalib::Object3DObs"
RANSAC = ("McCalib::ransacP3P", "McCalib::ransacP3PDistortion")


def run(c):
    c.rule("reject", "an observation with fewer than four inliers is marked invalid by pose estimation, one with many is not")
    c.rule("own inliers", "the inliers counted are those of the pose estimation of this observation")
    c.rule("keep", "after pose estimation an observation keeps exactly its inlier points, with the corner numbers of the same points")
    c.rule("revive", "nothing marks an invalid observation valid again")
    c.rule("measure", "a board pose is used as a measurement only if the observation is valid")
    c.rule("refine", "residual blocks are added only for valid board observations")
    c.rule("object", "only valid board observations become part of an object observation")
    estimate(c)
    uses(c)
    c.need("reject", 2)
    c.need("measure", 1)
    c.need("refine", 1)
    c.need("object", 1)
    return "other", ("Symbolic evaluation of pose estimation (validity as a function of the inlier count, kept points) and of every "
                     "stage; each use of a board observation as a measurement must be guarded by its validity.")


def estimate(c):
    for fn in c.roots():
        if fn.get("cls") != BO:
            continue
        it = c.it(fn)
        V = mk("fld", mk("this"), "valid_")
        rs = [e for e in it.events if e.kind in ("call", "icall") and e.f in RANSAC]
        if not rs:
            continue
        key = fn["name"]
        v = it.store.get(V)
        if v is None:
            c.bad("reject", key, fn, "the validity of the observation is not decided by its pose estimation")
            continue
        INL = mk("sym", "inliers")
        m = {t: INL for t in subterms(v) if t.op == "call" and t.a[0] in RANSAC}
        for e in it.events:
            if e.kind == "write":
                m.update({t: INL for t in subterms(e.val) if t.op == "call" and t.a[0] in RANSAC})
        v = subst(v, m)
        cnt = {t for t in subterms(v) if contains(t, INL) and t is not INL and t.op in ("fld", "size", "call", "isempty") and
               (t.op in ("size", "isempty", "call") or t.op == "fld" and t.a[1] == "rows")}
        if not cnt:
            src = [show(g)[:120] for e in it.events if e.kind == "write" and e.loc is V for g in e.guards()[-1:]]
            c.bad("own inliers", key, fn, "the rejection does not depend on the inliers of the observation (%s)" % (src or show(v))[:2])
            continue
        c.ok("own inliers", fn, ", ".join(show(x) for x in cnt))
        for n in (0, 1, 2, 3, 4, 8, 1000):
            mm = {x: C(n) if x.op != "isempty" else C(n == 0) for x in cnt}
            mm.update({t: TRUE for t in subterms(v) if t.op == "nn"})
            r = subst(v, mm)
            if n < 4:
                c.judge(True if r is FALSE else False if r is TRUE or r is V else None, "reject", "few:" + key, fn,
                        "%d inliers: %s" % (n, show(r)[:60]), "an observation with %d inliers is not rejected" % n)
            elif n == 1000:
                c.judge(True if r is TRUE or r is V else False if r is FALSE else None, "reject", "many:" + key, fn,
                        "%d inliers: accepted" % n, "an observation with %d inliers is rejected" % n)
        # kept points
        got = {}
        for f in ("pts_2d_", "charuco_id_"):
            loc = mk("fld", mk("this"), f)
            x = it.store.get(loc)
            if x is None:
                c.bad("keep", f, fn, "%s is not restricted to the inliers" % f)
                continue
            x = subst(x, m)
            x = subst(x, {t: TRUE for t in subterms(x) if t.op == "nn"})
            w = elementwise(it, x)
            if w is None:
                if x is loc:
                    c.bad("keep", f, fn, "%s is not restricted to the inliers" % f)
                else:
                    c.und("keep", fn, "%s: %s" % (f, show(x)[:120]))
                continue
            got[f] = w
            item, idx, guard, loop = w
            good = item.op == "elem" and item.a[0] is loc
            if not good:
                c.judge(False if item.op == "elem" and item.a[0].op == "fld" else None, "keep", f, fn, show(item)[:120],
                        "the kept %s are taken from %s" % (f, show(item)[:120]))
                continue
            p = item.a[1]
            if p.op == "elem" and p.a[0] is INL and at(p.a[1], idx):
                gs = [g for g in conj([guard]) if g is not TRUE]
                c.judge(not gs, "keep", f, fn, "element inliers[i] for every inlier i", "points are kept only if %s" % (show(gs[0])[:160] if gs else ""))
            elif p is idx or isconst(p):
                c.bad("keep", f, fn, "the first points are kept instead of the inlier points (index %s)" % show(p))
            else:
                c.und("keep", fn, show(p)[:120])


def at(k, idx):
    if k is idx:
        return True
    return k.op == "ij" and (k.a[0] is idx and isconst(k.a[1]) or k.a[1] is idx and isconst(k.a[0]))


def valid(gs, x):
    """True: guarded by validity; False: definitely not"""
    v = mk("fld", x, "valid_")
    for g in gs:
        if ev3n(g, {v: FALSE}) is False:
            return True
    return False


def ev3n(g, m):
    r = subst(g, m)
    return None if not isconst(r) else bool(r.a[0])


def occurrences(c, fn, val):
    """board observations whose pose enters a value, with the conditions under which it does"""
    out, seen = [], set()

    def go(t, gs):
        if not isinstance(t, Term):
            if isinstance(t, tuple):
                for x in t:
                    go(x, gs)
            return
        if (t, gs) in seen:
            return
        seen.add((t, gs))
        if t.op == "fld" and t.a[1] == "pose_" and c.ty(fn, t.a[0]) == BO:
            out.append((t.a[0], gs))
            return
        if t.op in ("collect", "sum"):
            go(t.a[1], gs)
            go(t.a[2], gs + (t.a[3],))
            return
        if t.op == "ite":
            go(t.a[1], gs + (t.a[0],))
            go(t.a[2], gs + (unop("!", t.a[0]),))
            return
        for x in t.a:
            go(x, gs)
    if len({t for t in subterms(val) if t.op == "fld" and t.a[1] == "pose_"}):
        go(val, ())
    return out


def plain(x):
    """a location reached through fields and containers only: what it holds is not a filtered copy"""
    while True:
        if x.op in ("this", "arg", "glob"):
            return True
        if x.op == "fld":
            x = x.a[0]
        elif x.op in ("elem", "pair"):
            x = x.a[0]
        else:
            return False


def uses(c):
    for fn, it in c.stages():
        cls = fn.get("cls")
        for e in it.events:
            if e.kind in ("write", "push", "mapins", "setins"):
                loc = e.loc if e.kind == "write" else e.cont
                val = e.val if "val" in e.d else None
                if val is None:
                    continue
                own = owner(loc)
                ot = c.ty(fn, own) if own is not None else ""
                if root(loc).op in ("var", "glob") or ot == BO:
                    continue
                # object observations
                if ot == OO and "board_observations_" == lastfield(loc) and c.ty(fn, val) == BO and val.op != "arg":
                    ok = valid(e.guards(), val)
                    c.judge(True if ok else False if plain(val) else None, "object", "%s in %s" % (lastfield(loc), fn["name"]), e,
                            "%s" % show(val)[:80], "the board observation %s is added to an object observation without a check that it is valid" % show(val)[:120])
                    continue
                xs = occurrences(c, fn, val)
                if e.kind == "mapins":
                    continue
                if e.kind == "write" and lastfield(loc) == "error_board_vec":
                    continue
                for x, gs in xs:
                    if x.op in ("this", "arg"):
                        continue
                    ok = valid(list(e.guards()) + list(gs), x)
                    c.judge(True if ok else False if plain(x) and root(loc).op in ("this", "new") else None, "measure",
                            "%s in %s" % (lastfield(loc), fn["name"]), e, show(x)[:80],
                            "the pose of the board observation %s is used without a check that it is valid" % show(x)[:120])
            elif e.kind in ("call", "icall") and e.f == "ceres::Problem::AddResidualBlock":
                ts = list(e.args) + [l.cont for l in e.loops() if l.cont is not None] + [l.bound for l in e.loops() if l.bound is not None]
                xs = {t for v in ts for t in subterms(v) if c.ty(fn, t) == BO and t.op not in ("this", "arg")}
                for x in xs:
                    if x.op == "elem" and x.a[0].op == "fld" and c.ty(fn, x.a[0].a[0]) == OO and not valid(e.guards(), x):
                        c.und("refine", e, "board observations of an object observation: see rule 'object'")
                        continue
                    ok = valid(e.guards(), x)
                    c.judge(True if ok else False if plain(x) else None, "refine", fn["name"], e, show(x)[:80],
                            "residuals of %s are added without a check that it is valid" % show(x)[:120])
        for e in it.events:
            if e.kind == "write" and e.loc.op == "fld" and e.loc.a[1] == "valid_" and c.ty(fn, e.loc.a[0]) == BO:
                v = e.val
                if v is TRUE and not any("ctor" in s[0] for s in e.stack) and not e.fn.get("ctor"):
                    inl = any(t.op == "call" and t.a[0] in RANSAC for g in e.guards() for t in subterms(g))
                    c.judge(None if inl else False, "revive", "valid_ in " + e.fn["name"], e, "set valid",
                            "the observation is marked valid without regard to its inliers")
                elif v is FALSE:
                    c.ok("revive", e, "marked invalid")


def owner(loc):
    x = loc
    while x.op == "elem":
        x = x.a[0]
    return x.a[0] if x.op == "fld" else None


def lastfield(loc):
    x = loc
    while x.op == "elem":
        x = x.a[0]
    return x.a[1] if x.op == "fld" else None
