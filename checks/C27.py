"""C27: non-overlapping groups are related by synchronised pose pairs."""
from sa.core import *
from sa.posetypes import *
from checks import C01

HE = "cv::calibrateHandEye"
POSES, COUNT, OBJECTS = "no_overlap_camgroup_pair_pose_", "no_overlap__camgroup_pair_common_cnt_", "no_overlap_object_pair_"
LISTS = "vector<cv::Mat"


class Mute:
    """C01's tables are needed here; its own obligations are C01's"""

    def __init__(self, c):
        self.c = c

    def __getattr__(self, n):
        if n in ("ok", "und", "bad", "judge", "rule", "need"):
            return lambda *a, **k: None
        return getattr(self.c, n)


def run(c):
    c.rule("subset", "rotations and translations handed to the estimation come from the same selected poses on both sides")
    c.rule("whole", "an estimation that delegates to another one passes both lists on")
    c.rule("synchronised", "the lists of the two groups receive their entries in the same iterations, under the same conditions")
    c.rule("frame", "the two poses of a pair are observed in the same frame")
    c.rule("groups", "the lists hold poses of the groups of the key under which the result is stored")
    c.rule("objects", "the poses are those of the objects selected for the groups")
    c.rule("selected", "the object pair of two groups is chosen among objects seen by the first group and by the second group, in that order")
    c.rule("common", "pairs are collected over frames seen by both groups")
    c.rule("present", "an observation found by the id of the object is used only if it was found")
    c.rule("consistency", "an estimate is tested by the motions of the two groups, which agree through it when the estimate is right")
    c.rule("count", "the number stored for two groups is the number of pose pairs used")
    its, hand, pairs, done = C01.tables(Mute(c))
    est = estimators(c)
    order = {}
    for name, (fn, ls) in est.items():
        estimator(c, fn, ls, est, order)
    for name, (fn, ls) in est.items():
        r = {(o, w): x for o, w, x in roles(order, name)}
        if len({o for o, _ in r}) > 1:
            c.bad("whole", "alternatives of " + name, next(iter(r.values())), "one estimation uses the lists in one order and its alternative in the other")
        elif r:
            c.ok("whole", next(iter(r.values())), "%d alternative(s), lists in one order" % len(r))
    consistency(c, est)
    seen = set()
    for fn, it in its:
        if fn["name"] in est or fn.get("ctor"):
            continue
        relate(c, fn, it, pairs, hand, est, seen)
        select(c, fn, it, pairs, hand, seen)
    for r in ("subset", "whole", "synchronised", "frame", "groups", "objects", "selected", "common", "consistency", "count"):
        c.need(r, 1)
    return "other", "Terms of the lists handed to the hand-eye estimation: iteration, conditions and source of both entries of a pair; frame typing of the entries."


# ------------------------------------------------------------------ test of an estimate
def consistency(c, est):
    """products of poses of both lists and of one further transform must cancel for poses related by that transform"""
    for fn in c.fns():
        ps = fn["params"]
        ls = [i for i, p in enumerate(ps) if LISTS in p["t"]]
        xs = [i for i, p in enumerate(ps) if "cv::Mat" in p["t"] and "vector" not in p["t"]]
        if len(ls) != 2 or len(xs) != 1 or fn.get("cls") or fn["name"] in est:
            continue
        a1, a2, x = mk("arg", ps[ls[0]]["n"], ls[0]), mk("arg", ps[ls[1]]["n"], ls[1]), mk("arg", ps[xs[0]]["n"], xs[0])
        it, found = c.it(fn["name"]), {}
        for e in it.events:
            for t in C26terms(e):
                for m in tops(t):
                    us = set(subterms(m))
                    if x in us and a1 in us and a2 in us:
                        found.setdefault(m, e)
        for m, e in found.items():
            w = word(m, a1, a2, x)
            if w is None:
                continue
            r = reduce(w)
            used = {k for n, k, _ in w if n == "B"}
            if r and len(used) < 2:
                continue
            c.judge(not r, "consistency", "motions in " + fn["name"], e, "the product is the identity for poses related by the estimate",
                    "the product that measures the error is not the identity for poses related by the estimate: %s is left" %
                    " ".join("%s%s%s" % ({"B": "pose2", "X": "estimate", "Z": "offset"}[n], "" if k is None else "[%s]" % show(k)[:30], "" if s > 0 else "^-1") for n, k, s in r))


def C26terms(e):
    for v in e.d.values():
        if isinstance(v, Term):
            yield v
        elif isinstance(v, (list, tuple)):
            for x in v:
                if isinstance(x, Term):
                    yield x


def tops(t):
    """the outermost products of a term"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("mul", "inv"):
            yield x
        else:
            todo += [y for y in x.a if isinstance(y, Term)]


def word(t, a1, a2, x, s=1):
    """the product as a word, with pose1[k] = estimate * pose2[k] * offset"""
    if t.op == "inv":
        return word(t.a[0], a1, a2, x, -s)
    if t.op == "mul":
        l, r = word(t.a[0], a1, a2, x, s), word(t.a[1], a1, a2, x, s)
        return None if l is None or r is None else l + r if s > 0 else r + l
    if t is x:
        return [("X", None, s)]
    if t.op == "elem" and t.a[0] is a2:
        return [("B", t.a[1], s)]
    if t.op == "elem" and t.a[0] is a1:
        w = [("X", None, 1), ("B", t.a[1], 1), ("Z", None, 1)]
        return w if s > 0 else [(n, k, -1) for n, k, _ in reversed(w)]
    return None


def reduce(w):
    r = []
    for n, k, s in w:
        if r and r[-1][0] == n and r[-1][1] is k and r[-1][2] == -s:
            r.pop()
        else:
            r.append((n, k, s))
    return r


def estimators(c):
    """project functions that end in a hand-eye estimation and take two lists of poses"""
    r = {}
    for fn in c.fns():
        ls = [i for i, p in enumerate(fn["params"]) if LISTS in p["t"]]
        if len(ls) != 2 or fn.get("cls"):
            continue
        seen, todo = set(), [fn]
        while todo:
            f = todo.pop()
            if f["name"] in seen:
                continue
            seen.add(f["name"])
            for x in walk(f.get("body")):
                if x["k"] == "call" and x.get("f") == HE:
                    r[fn["name"]] = (fn, ls)
            todo += [c.prog.fns[u] for u in callees(f.get("body")) if u in c.prog.fns]
    return r


# ------------------------------------------------------------------ inside the estimation
def entries(it, l, d=0):
    """(iteration, conditions, entry) of a list filled by one loop; None when it is something else"""
    if l.op == "collect" and (l.a[1] is EMPTY or l.a[1].op == "vec" and l.a[1].a[0] is C(0)):
        return it.loops_by_uid[num(l.a[0].a[0])], l.a[3] if len(l.a) > 3 else TRUE, l.a[2]
    if l.op == "agg" and l.a[0].op in ("vec", "empty") and len(l.a[1]) == 1:
        p, v = l.a[1][0] if len(l.a[1][0]) == 2 else (None, None)
        if p is None or len(p) != 1 or p[0][0] != "e":
            return None
        k = p[0][1]
        for L in it.loops_by_uid.values():
            if L.key is k:
                return L, TRUE, v
    return None


def num(x):
    return x.a[0] if isinstance(x, Term) else x


def key0(L):
    """the key of a loop, as a name that is the same for every loop over the same range"""
    if L.kind == "each":
        return mk("glob", "each"), ("each", L.cont)
    if L.kind == "range":
        return mk("glob", "each"), ("range", L.start, L.bound, L.step)
    return L.key, ("while", L.uid)


def source(x):
    """(part, inverted, list, index) of an entry"""
    part = None
    if x.op in ("R", "t"):
        part, x = x.op, x.a[0]
    elif x.op == "rod" and x.a[0].op in ("R", "t"):
        return None
    inv = False
    while x.op == "inv":
        inv, x = not inv, x.a[0]
    if x.op == "elem":
        return part, inv, x.a[0], x.a[1]
    return None


def roles(order, name, d=0):
    for kind, o, e in order.get(name, ()):
        if kind == HE:
            yield o, e.line, e
        elif d < 4:
            for p, w, x in roles(order, kind, d + 1):
                yield tuple(o[i] for i in p), (e.line, w), e


def estimator(c, fn, ls, est, order):
    opq = tuple(x for x in AVG if "handeye" not in x.lower()) + GRAPH + tuple(n for n in est if n != fn["name"])
    it = c.it(fn, opaque=opq, tag="c27")
    for e in it.events:
        if e.kind != "call":
            continue
        if e.f in est and e.f != fn["name"]:
            delegate(c, fn, e, ls, est[e.f][1], order)
        if e.f == HE:
            four = [entries(it, a) for a in e.args[:4]]
            key = "lists of calibrateHandEye in " + fn["name"]
            if None in four:
                c.und("subset", e, "a list that is not filled by one loop: %s" % [show(a)[:60] for a, f in zip(e.args, four) if f is None])
                continue
            norm = []
            for L, g, x in four:
                k, how = key0(L)
                s = subst(x, {L.key: k})
                norm.append((how, subst(g, {L.key: k}) if isinstance(g, Term) else g, source(s), L))
            if any(n[2] is None for n in norm):
                c.und("subset", e, "entries that are not rotations and translations of listed poses: %s" % [show(f[2])[:80] for f in four])
                continue
            same = len({n[0] for n in norm}) == 1 or None
            idx = {n[2][3] for n in norm}
            lists = [n[2][2] for n in norm]
            if len(idx) > 1:
                c.bad("subset", key, e, "the four lists do not use the same poses: indices %s" % sorted(show(i)[:80] for i in idx))
            elif len({n[1] for n in norm}) > 1:
                c.bad("subset", key, e, "the four lists are filled under different conditions: %s" % sorted(show(n[1])[:80] for n in norm))
            elif [n[2][0] for n in norm] != ["R", "t", "R", "t"]:
                c.bad("subset", key, e, "the lists are not rotations and translations in the order of the call: %s" % [n[2][0] for n in norm])
            elif lists[0] is not lists[1] or lists[2] is not lists[3]:
                c.bad("subset", key, e, "the rotation and the translation of a pose come from different lists: %s" % [show(x)[:40] for x in lists])
            elif norm[0][2][1] != norm[1][2][1] or norm[2][2][1] != norm[3][2][1]:
                c.bad("subset", key, e, "the rotation and the translation of a pose are of the pose and of its inverse")
            elif lists[0] is lists[2]:
                c.bad("subset", key, e, "both sides are taken from the list %s" % show(lists[0])[:60])
            elif not all(l.op == "arg" and l.a[1] in ls or l.op == "arg" and num(l.a[1]) in ls for l in lists):
                c.und("subset", e, "lists %s" % [show(l)[:60] for l in lists])
            else:
                order.setdefault(fn["name"], []).append((HE, (ls.index(num(lists[0].a[1])), ls.index(num(lists[2].a[1]))), e))
                c.judge(same, "subset", key, e, "%s[%s] and %s[...] from one iteration" % (show(lists[0]), show(next(iter(idx)))[:60], show(lists[2])))


def delegate(c, fn, e, ls, ls2, order):
    """a call of another estimation from an estimation"""
    key = "lists passed on by " + fn["name"]
    a, b = (e.args[i] for i in ls2)
    if a.op == b.op == "arg":
        if a is b:
            c.bad("whole", key, e, "the list %s is passed for both groups" % show(a))
        else:
            o = [num(a.a[1]), num(b.a[1])]
            if set(o) <= set(ls):
                order.setdefault(fn["name"], []).append((e.f, tuple(ls.index(i) for i in o), e))
            c.judge(set(o) == set(ls), "whole", key, e, "%s and %s" % (show(a), show(b)), "the lists passed are %s, %s" % (show(a), show(b)))
    else:
        c.und("whole", e, "%s, %s" % (show(a)[:80], show(b)[:80]))


# ------------------------------------------------------------------ the lists of two groups
def relate(c, fn, it, pairs, hand, est, seen):
    results = {}
    for e in it.events:
        if e.kind == "call" and e.f in est:
            w = c.w(e)
            res = None
            if (w, fn["name"]) in seen:
                continue
            seen.add((w, fn["name"]))
            one(c, fn, it, e, pairs, hand, est[e.f][1], results)
    stored(c, fn, it, pairs, hand, results, seen)


def pushes(it, loc, upto):
    """insertions into a local list, None when it is changed otherwise"""
    r = []
    for e in it.events:
        if e is upto:
            break
        if e.kind == "push" and e.cont is loc:
            r.append(e)
        elif e.kind in ("write", "erase", "mapins", "setins") and (e.loc if e.kind == "write" else e.cont) is loc:
            if e.kind == "write" and e.val is EMPTY:
                continue
            return None
        elif e.kind == "write" and e.loc.op == "elem" and e.loc.a[0] is loc:
            return None
        elif e.kind == "touch" and e.d.get("loc") is loc:
            return None
    return r


def flat(gs):
    r = set()
    for g in gs:
        if g.op == "&&" or g.op == "op" and g.a[0] in ("&&", "&"):
            r |= flat([x for x in g.a if isinstance(x, Term)])
        elif g is not TRUE:
            r.add(g)
    return r


def one(c, fn, it, e, pairs, hand, ls, results):
    key = "lists for %s in %s" % (e.f.split("::")[-1], here(e, fn))
    results.setdefault("lists", set()).update(e.args[i] for i in ls)
    locs = [e.d["locs"][i] if len(e.d.get("locs", ())) > i else None for i in ls]
    if e.args[ls[0]] is e.args[ls[1]] and e.args[ls[0]] is not EMPTY:
        c.bad("synchronised", key, e, "the same list is passed for both groups")
        return
    ps = [pushes(it, l, e) if l is not None else None for l in locs]
    if None in ps or [] in ps:
        c.und("synchronised", e, "lists %s" % [show(l) if l is not None else "?" for l in locs])
        return
    # iterations and conditions
    sig = []
    for p in ps:
        s = []
        for x in p:
            sub, how = {}, []
            for n, L in enumerate(x.loops()):
                if L in e.loops():
                    continue
                k, h = key0(L)
                how.append(tuple(subst(y, sub) if isinstance(y, Term) else y for y in h))
                sub[L.key] = mk("glob", "each%d" % n)
            s.append((tuple(how), frozenset(subst(g, sub) for g in flat(x.guards())), x))
        sig.append(s)
    a, b = [[x[:2] for x in s] for s in sig]
    if len(a) == len(b) and all(x in b for x in a) and all(x in a for x in b):
        c.ok("synchronised", e, "%d insertion(s) each, conditions and iterations agree" % len(a))
    elif {x[0] for x in a} != {x[0] for x in b} and len(a) == len(b) == 1:
        if settled(it, a[0][0], b[0][0]):
            c.bad("synchronised", key, sig[1][0][2], "the lists are filled by iterations over different collections: %s and %s" % (sh(a[0][0]), sh(b[0][0])))
        else:
            c.und("synchronised", e, "iterations %s and %s" % (sh(a[0][0]), sh(b[0][0])))
    elif len(a) == len(b) == 1:
        d = (a[0][1] ^ b[0][1])
        c.bad("synchronised", key, sig[0][0][2] if a[0][1] - b[0][1] else sig[1][0][2], "only one of the lists is filled under the condition %s" % show(sorted(d, key=show)[0])[-200:])
    else:
        c.bad("synchronised", key, e, "the lists are filled by %d and %d insertions under different conditions" % (len(a), len(b)))
    # the entries
    F = Frames(c, fn, it, pairs, hand)
    got = []
    for s in sig:
        for _, _, x in s:
            del F.eqs[:]
            F.assume(x.guards())
            try:
                t = F.ptype(x.val)
            except Mismatch:
                t = None
            got.append((x, group(t), obj(t), frames(F, x.val), list(F.eqs)))
    n = len(sig[0])
    A, B = got[:n], got[n:]
    if n != len(B):
        return
    for x, y in zip(A, B):
        w = "%s / %s" % (c.w(x[0]), c.w(y[0]))
        fx, fy = x[3], y[3]
        if len(fx) != 1 or len(fy) != 1:
            c.und("frame", x[0], "frames of the poses: %d, %d" % (len(fx), len(fy)))
        else:
            p, q = next(iter(fx)), next(iter(fy))
            del F.eqs[:]
            F.eqs.extend(x[4])
            same = p is q or F.equal(F.canon(p), F.canon(q))
            c.judge(True if same else False if F.known(F.canon(p)) and F.known(F.canon(q)) else None, "frame", key, y[0], "both of %s" % show(p)[-80:],
                    "the poses of a pair are of frames %s and %s" % (show(p)[-120:], show(q)[-120:]))
        if None in (x[1], y[1]):
            c.und("groups", x[0], "groups of the entries")
            c.und("common", x[0], "groups of the entries")
        else:
            if x[1] is y[1]:
                c.bad("groups", key, y[0], "both lists hold poses of group %s" % show(x[1]))
            results.setdefault("sites", []).append((e, x[1], y[1], locs, [e.args[i] for i in ls]))
            common(c, it, F, key, x[0], {x[1], y[1]})
        for z in (x, y):
            present(c, F, key, z[0])
        if None in (x[1], y[1], x[2], y[2]):
            c.und("objects", x[0], "objects of the entries")
        else:
            objects(c, F, key, x, y)


def settled(it, a, b):
    """both iterations are over known different collections"""
    return all(len(h) == 1 and h[0][0] == "each" and isinstance(h[0][1], Term) and all(x.op in ("fld", "elem", "arg", "this", "glob", "k") for x in locwalk(h[0][1])) for h in (a, b))


def locwalk(t):
    yield t
    if t.op in ("fld",):
        yield from locwalk(t.a[0])
    elif t.op == "elem":
        yield from locwalk(t.a[0])


def sh(h):
    return ", ".join(show(x[1])[-60:] if len(x) > 1 and isinstance(x[1], Term) else str(x[0]) for x in h)


def here(e, fn):
    return (e.fn["name"] if isinstance(e.fn, dict) else fn["name"]).split("::")[-1]


def group(t):
    """id of the group in whose frame a pose is expressed"""
    if t is None or t == ID:
        return None
    f = t[0]
    if f[0] == "C" and f[1].op == "fld" and f[1].a[1] == "id_ref_cam_":
        g = f[1].a[0]
        if g.op == "elem" and g.a[0].op == "fld" and g.a[0].a[1] == "cam_group_":
            return g.a[1]
    return None


def obj(t):
    if t is None or t == ID:
        return None
    f = t[1]
    if f[0] == "B" and f[1].op == "fld" and f[1].a[1] == "ref_board_id_":
        o = f[1].a[0]
        if o.op == "elem" and o.a[0].op == "fld" and o.a[0].a[1] == "object_3d_":
            return o.a[1]
    return None


def frames(F, t):
    """frames whose group observations hold the pose"""
    r = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.op == "elem" and x.a[0].op == "fld" and x.a[0].a[1] == "cam_group_observations_" and F.ty2(x.a[0].a[0]) in ("", FR):
            r.add(x.a[0].a[0])
            continue
        if x.op == "fld" and x.a[1] == "object_pose_" and F.ty2(x.a[0]) in ("", GO):
            todo.append(x.a[0])
            continue
        if x.op == "elem":
            todo.append(x.a[0])
        else:
            todo += [y for y in x.a if isinstance(y, Term)]
            if x.op == "agg":
                pass
    return r


def objects(c, F, key, x, y):
    """both objects are those recorded for (group of the first list, group of the second list) or the reverse"""
    for e, g, o, side, other in ((x[0], x[1], x[2], 0, y[1]), (y[0], y[1], y[2], 1, x[1])):
        ok = want(F, o, g, other)
        if ok is None:
            # equal to it by a comparison that holds here
            ok = any(want(F, q, g, other) for q in F.closure(o, mk("glob", "none"))) or None
        msg = "the pose of group %s is of object %s" % (show(g), show(o)[-120:])
        if ok is None and F.known(o):
            ok = False
        if ok is None:
            ok = foreign(F, e, o)
        c.judge(ok, "objects", key, e, "object %s for group %s" % (show(o)[-60:], show(g)), msg)


def position(key):
    """(list, value, condition that it was found) when the key is the position of a value in a list"""
    if key.op != "call":
        return None
    if key.a[0] in ("__gnu_cxx::operator-", "std::operator-"):
        f, b = key.a[1], key.a[2]
    elif key.a[0] == "std::distance":
        b, f = key.a[1], key.a[2]
    else:
        return None
    if f.op == "call" and f.a[0] == "std::find" and len(f.a) >= 4 and b.op == "begin" and f.a[1].op == "begin" and f.a[1].a[0] is b.a[0] and f.a[2].op == "end":
        return b.a[0], f.a[3], f, f.a[2]
    return None


def looked(t):
    """(observation, position) of the object observations picked by a position"""
    for x in subterms(t):
        if x.op == "elem" and x.a[0].op == "fld" and x.a[0].a[1] == "object_observations_":
            yield x.a[0].a[0], x.a[1]


def foreign(F, e, o):
    """False when the object observation is picked by a position in the list of another observation"""
    for own, k in looked(e.val):
        p = position(F.canon(k))
        if p and p[0].op == "fld" and p[0].a[1] == "object_idx_" and p[0].a[0] is not F.canon(own):
            a, b = grp(F, own), grp(F, posowner(k))
            if a is not None and b is not None and a[0] is not b[0]:
                return False
        if p and p[0].op == "fld" and p[0].a[1] in ("cam_group_idx_", "cam_idx_", "board_idx_") and F.canon(k) is k:
            return False
    return None


def posowner(k):
    p = position(k)
    return p[0].a[0] if p and p[0].op == "fld" else k


def grp(F, own):
    return seenby(F, mk("fld", own, "object_idx_"))


def present(c, F, key, e):
    gs = list(e.guards())
    fl = flat(gs)
    done = set()
    for own, k in looked(e.val):
        p = position(k)
        if p is None or p[0].op != "fld" or p[0].a[1] != "object_idx_" or p[2] in done:
            continue
        done.add(p[2])
        f, end = p[2], p[3]
        if any(g.op == "op" and g.a[0] == "!=" and {g.a[1], g.a[2]} == {f, end} or g.op == "!" and g.a[0].op == "op" and g.a[0].a[0] == "==" and set(g.a[0].a[1:]) == {f, end} for g in fl):
            c.ok("present", e, "found among the objects of the observation")
            continue
        hit = [g for g in fl if any(x is f for x in subterms(g)) and g.op in ("op", "||") and any(x.op == "op" and x.a[0] in ("!=", "==") and {*x.a[1:]} == {f, end} for x in subterms(g))]
        if not hit and not any(x is f for g in fl for x in subterms(core(g, k))):
            c.bad("present", key, e, "the pose of an object is used without a test that the object is observed")
        elif hit and all(g.op == "||" or g.a[0] in ("||", "|") for g in hit):
            c.bad("present", key, e, "the pose of an object is used although only one of the objects may be observed")
        else:
            c.und("present", e, "test that the object is observed")


def core(g, k):
    """condition without the element selected by the position"""
    return subst(g, {k: mk("glob", "pos")})


SETS_ = {"std::set_union": "frames of either group", "std::set_difference": "frames of one group only", "std::set_symmetric_difference": "frames of one group only", "std::merge": "frames of either group"}


def common(c, it, F, key, e, groups):
    conts = [L.cont for L in e.loops() if L.cont is not None]
    for cont in conts:
        for x in it.events:
            if x.kind != "call" or not (x.f == "std::set_intersection" or x.f in SETS_) or len(x.args) < 5:
                continue
            v = target(x.args[4])
            if v is None or not (v is cont or any(y is v for y in subterms(cont))):
                continue
            if x.f in SETS_:
                c.bad("common", key, x, "the pairs are collected over %s" % SETS_[x.f])
                return
            src = [fill(it, F, x.args[i]) for i in (0, 2)]
            if None in src:
                c.und("common", x, "frames that are intersected")
            else:
                c.judge(set(src) == groups, "common", key, x, "frames of groups %s and %s" % tuple(show(q) for q in src),
                        "the frames of %s are collected for the groups %s" % ([show(q) for q in src], sorted(show(q) for q in groups)))
            return
    c.und("common", e, "collection of the frames")


def target(t):
    for x in subterms(t):
        if x.op == "begin" and x.a[0].op == "var":
            return x.a[0]
    return None


def fill(it, F, b):
    """group whose frames a local table holds"""
    if b.op != "begin":
        return None
    v = b.a[0]
    if v.op == "var":
        src = set()
        for e in it.events:
            if e.kind == "write" and e.loc.op == "elem" and e.loc.a[0] is v:
                src.add(owner(e.val, e.loc.a[1]))
            elif e.kind == "mapins" and e.cont is v:
                src.add(owner(e.val, e.key))
        if len(src) != 1 or None in src:
            return None
        v = next(iter(src))
    v = F.canon(v)
    if v.op == "fld" and v.a[1] == "frames_":
        g = v.a[0]
        if g.op == "elem" and g.a[0].op == "fld" and g.a[0].a[1] == "cam_group_":
            return g.a[1]
    return None


def owner(val, key):
    if val.op == "elem" and val.a[1] is key:
        return val.a[0]
    return None


def want(F, o, g, other):
    if o.op == "fld" and o.a[1] in ("first", "second"):
        p = o.a[0]
        if p.op == "elem" and p.a[0].op == "fld" and p.a[0].a[1] == OBJECTS:
            k = p.a[1]
            if k.op == "mkpair":
                a, b = k.a
                i = 0 if o.a[1] == "first" else 1
                return (a, b)[i] is g and (a, b)[1 - i] is other
    return None


def stored(c, fn, it, pairs, hand, results, seen):
    sites = results.get("sites", [])
    for e in it.events:
        if e.kind not in ("write", "mapins") or "val" not in e.d or e.val is EMPTY:
            continue
        loc = e.loc if e.kind == "write" else mk("elem", e.cont, e.key)
        if loc.op != "elem" or loc.a[0].op != "fld" or loc.a[0].a[1] not in (POSES, COUNT):
            continue
        if (c.w(e), fn["name"], "s") in seen:
            continue
        seen.add((c.w(e), fn["name"], "s"))
        F = Frames(c, fn, it, pairs, hand)
        k = F.canon(loc.a[1])
        key = "%s in %s" % (loc.a[0].a[1], here(e, fn))
        if k.op != "mkpair":
            c.und("groups", e, "key %s" % show(k)[:80])
            continue
        # the sites the value comes from
        if loc.a[0].a[1] == POSES:
            calls = {x for x in subterms(e.val) if x.op == "call" and x.a[0] in {s[0].f for s in sites}}
            mine = [s for s in sites if any(all(a in x.a for a in s[4]) for x in calls)]
            if not mine:
                c.und("groups", e, "origin of the stored pose")
            for s in mine:
                c.judge({s[1], s[2]} == set(k.a) if all(F.known(q) for q in (*k.a, s[1], s[2])) else True if {s[1], s[2]} == set(k.a) else None,
                        "groups", key, e, "groups %s and %s" % (show(s[1]), show(s[2])),
                        "the pose estimated for groups %s and %s is stored for %s" % (show(s[1]), show(s[2]), show(k)[:80]))
        else:
            lists = {a: s for s in sites for a in s[4]}
            v = strip(e.val)
            if v.op == "size" and v.a[0] in lists:
                s = lists[v.a[0]]
                c.judge({s[1], s[2]} == set(k.a), "count", key, e, "number of pairs of %s and %s" % (show(s[1]), show(s[2])),
                        "the number of pairs of groups %s and %s is stored for %s" % (show(s[1]), show(s[2]), show(k)[:80]))
            elif v.op == "call" and v.a[0] == "std::min" and all(x.op == "size" and x.a[0] in lists for x in v.a[1:]):
                c.ok("count", e, "the smaller of both sizes")
            elif not results.get("lists") or any(x in results["lists"] for x in subterms(v)) and not any(x.op == "size" and x.a[0] in lists for x in subterms(v)):
                c.und("count", e, show(v)[:100])
            elif isconst(v) or v.op == "size" or v.op in ("arg", "fld") or v.op == "op" and any(x.op == "size" and x.a[0] in lists for x in subterms(v)):
                c.bad("count", key, e, "the number stored is %s, not the number of pose pairs" % show(v)[:120])
            else:
                c.und("count", e, show(v)[:100])


def strip(t):
    while t.op in ("cast", "trunc") and isinstance(t.a[-1], Term):
        t = t.a[-1]
    return t


# ------------------------------------------------------------------ the objects selected for two groups
def select(c, fn, it, pairs, hand, seen):
    F = Frames(c, fn, it, pairs, hand)
    for e in it.events:
        if e.kind not in ("write", "mapins") or "val" not in e.d:
            continue
        loc = e.loc if e.kind == "write" else mk("elem", e.cont, e.key)
        if loc.op != "elem" or loc.a[0].op != "fld" or loc.a[0].a[1] != OBJECTS:
            continue
        if (c.w(e), "o") in seen:
            continue
        seen.add((c.w(e), "o"))
        k = F.canon(loc.a[1])
        key = "%s in %s" % (OBJECTS, here(e, fn))
        if k.op != "mkpair":
            c.und("selected", e, "key %s" % show(k)[:80])
            continue
        # tallies the value is drawn from: increments of entries of a local table keyed by a pair
        n = 0
        for x in it.events:
            if x is e:
                break
            if x.kind != "write" or x.loc.op != "elem" or root(x.loc).op != "var" or x.loc.a[1].op != "mkpair":
                continue
            if isconst(x.val) or not any(y is x.loc.a[1] for y in subterms(x.val)) or not set(e.loops()) <= set(x.loops()):
                continue
            n += 1
            tally(c, fn, it, F, e, x, k, key)
            chosen(c, it, e, x, key)
            most(c, it, e, key)
        if not n:
            c.und("selected", e, "how the pair of objects is chosen")


def chosen(c, it, e, x, key):
    """the value stored is a key of the table of counts"""
    tab = x.loc.a[0]
    for v in values(e.val):
        if v.op == "mkpair" and all(isconst(q) for q in v.a) or v.op in ("lam", "zero", "undef"):
            continue
        k = v
        if v.op == "mkpair" and all(q.op == "fld" and q.a[1] in ("first", "second") for q in v.a) and v.a[0].a[0] is v.a[1].a[0]:
            n = tuple(q.a[1] for q in v.a)
            if n == ("second", "first"):
                c.bad("selected", key, e, "the objects of the counted pair are exchanged")
                continue
            k = v.a[0].a[0] if n == ("first", "second") else v
        if k.op == "k":
            c.ok("selected", e, "a counted pair")
        elif v.op in ("firstkey", "lastkey"):
            c.bad("selected", key, e, "the pair that is kept is not the one whose count was compared")
        else:
            c.und("selected", e, "value %s" % show(v)[:80])


def most(c, it, e, key):
    """the pair kept is the one with the largest count"""
    for t in subterms(e.val):
        if t.op != "fix" or t.a[3].op != "ite":
            continue
        g, new, old = t.a[3].a
        if new.op != "k" or old is not t.a[2] or g.op != "op" or len(g.a) != 3 or g.a[0] not in ("<", ">", "<=", ">="):
            continue
        o, a, b = g.a
        L = it.loops_by_uid.get(t.a[0].a[0])
        best = [(l, v) for l, v in (L.vars.items() if L is not None else ()) if v[1] in (a, b)]
        if len(best) != 1:
            continue
        l, (i0, h, st) = best[0]
        cnt = b if a is h else a
        if not any(x is new for x in subterms(cnt)):
            continue
        less = o in ("<", "<=") if a is h else o in (">", ">=")
        if not less:
            c.bad("selected", key + ": most", e, "a pair is kept if its count %s is smaller than the one kept before" % show(cnt)[-60:])
        elif st.op == "ite" and st.a[0] is g and st.a[1] is not cnt and st.a[2] is h:
            c.bad("selected", key + ": most", e, "the count compared with afterwards is %s, not the count of the pair kept" % show(st.a[1])[-60:])
        elif st.op == "ite" and st.a[0] is g and st.a[1] is cnt:
            c.ok("selected", e, "the pair counted most often")


def values(v, d=0):
    if d > 12:
        return
    if v.op == "fix":
        yield from values(v.a[1], d + 1)
        yield from values(v.a[3], d + 1)
    elif v.op == "ite":
        yield from values(v.a[1], d + 1)
        yield from values(v.a[2], d + 1)
    else:
        yield v


def tally(c, fn, it, F, e, x, k, key):
    a, b = x.loc.a[1].a
    del F.eqs[:]
    F.assume(x.guards())
    ga, gb = seenby(F, a), seenby(F, b)
    if ga is None or gb is None:
        c.und("selected", x, "%s / %s" % (show(a)[:60], show(b)[:60]))
        return
    if F.canon(ga[1]) is not F.canon(gb[1]):
        c.judge(False if F.known(F.canon(ga[1])) and F.known(F.canon(gb[1])) else None, "selected", key, x, "frames", "objects of different frames are counted together: %s, %s" %
                (show(ga[1])[-80:], show(gb[1])[-80:]))
        return
    c.judge((ga[0], gb[0]) == k.a, "selected", key, x, "objects seen by groups %s and %s in one frame" % (show(ga[0]), show(gb[0])),
            "the pair of groups %s is given objects seen by groups %s and %s" % (show(k), show(ga[0]), show(gb[0])))


def seenby(F, o):
    """(group, frame) whose observation holds the object id"""
    for y in walkloc(o):
        if y.op == "elem" and y.a[0].op == "fld" and y.a[0].a[1] == "cam_group_observations_" and F.ty2(y.a[0].a[0]) in ("", FR):
            own, idx = F.canon(y.a[0].a[0]), F.canon(y.a[1])
            g = F.found(own, idx, "cam_group_idx_")
            if g is None:
                g = F.canon(mk("fld", y, "cam_group_idx_"))
                if g.op == "fld" and g.a[1] == "cam_group_idx_":
                    for p, q in F.eqs:
                        if p is g:
                            return q, y.a[0].a[0]
                        if q is g:
                            return p, y.a[0].a[0]
                    return None
            return g, y.a[0].a[0]
    return None


def walkloc(t):
    while True:
        yield t
        if t.op in ("fld", "elem") and isinstance(t.a[0], Term):
            t = t.a[0]
        else:
            return
