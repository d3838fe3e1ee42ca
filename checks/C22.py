"""C22: averaged transforms use every sample of their pair, component by component, under their key."""
from sa.core import *
from sa.poly import Norm

CAL = "McCalib::Calibration"
GAR = "McCalib::getAverageRotation"
MED = "McCalib::median"
# pair measurements -> their average (and the graph that links the pairs)
PAIRS = {"board_pose_pairs_": ("inter_board_transform_", "covis_boards_graph_"),
         "camera_pose_pairs_": ("inter_camera_transform_", "covis_camera_graph_"),
         "object_pose_pairs_": ("inter_object_transform_", "covis_objects_graph_")}


def comp(x):
    """(kind, source, component) of a sample component"""
    idx = []
    while x.op == "elem" and isconst(x.a[1]):
        idx.append(x.a[1].a[0])
        x = x.a[0]
    if len(idx) != 1 or not isinstance(idx[0], int):
        return None
    i = idx[0]
    if x.op == "rod" and x.a[0].op == "R":
        return "r", x.a[0].a[0], i
    if x.op == "rod":
        return "r", x.a[0], i
    if x.op == "t":
        return "t", x.a[0], i
    if x.op == "fld":
        return ("r", x, i) if i < 3 else ("t", x, i - 3)
    if x.op == "out":
        return "?", x, i
    return None


def sorted_(v):
    """the median sorts its argument in place: the same samples"""
    while v.op == "out" and v.a[0] == MED and isinstance(v.a[-1], Term):
        v = v.a[-1]
    return v


def uncollect(v):
    """(loop, initial value, item, guard) of a vector filled by a loop"""
    v = sorted_(v)
    if v.op == "collect":
        return v.a
    return None


def canon(c, it):
    """(item, guard, container) with the loop's key replaced, so that two loops over one container compare"""
    L, init, item, g = c
    K = mk("k", "sample")
    m = {L.a[1]: K}
    loop = it.loops_by_uid.get(L.a[0])
    return subst(item, m), subst(g, m), loop


def loops_same(la, lb):
    if la is lb:
        return True
    if la is None or lb is None:
        return None
    if la.kind == lb.kind == "each":
        return la.cont is lb.cont
    if la.kind == lb.kind == "range":
        return la.start is lb.start and la.bound is lb.bound and la.step == lb.step
    return None


def triple(c, it, e, args, kind, what):
    """three vectors holding components 0, 1, 2 of the same samples; returns the canonical sample or None"""
    cs = [uncollect(a) for a in args]
    if any(x is None for x in cs):
        if any(a.op == "fix" or a.op == "push" for a in args):
            c.und("component", e, "%s: vectors not understood" % what)
        else:
            c.und("component", e, "%s: %s" % (what, show(args[0])[:120]))
        return None
    key = "%s in %s" % (what, e.fn["name"])
    r = []
    for n, x in enumerate(cs):
        item, g, loop = canon(x, it)
        k = comp(item)
        if k is None:
            c.und("component", e, "%s: component %s" % (what, show(item)[:120]))
            return None
        r.append((k, g, loop, x))
        init = x[1]
        if init is EMPTY:
            c.ok("fresh", e, "%s[%d] starts empty" % (what, n))
        elif init.op in ("lam", "collect", "fix", "push"):
            c.bad("fresh", key, e, "the samples of other entries are still in the vector of component %d" % n)
        else:
            c.und("fresh", e, "initial value %s" % show(init)[:80])
    ok = True
    for n, (k, g, loop, x) in enumerate(r):
        if k[0] not in (kind, "?"):
            ok = c.bad("component", key, e, "component %d of the %s is taken from the %s of the samples" % (
                n, "rotation" if kind == "r" else "translation", "translation" if k[0] == "t" else "rotation")) or False
        elif k[2] != n:
            ok = c.bad("component", key, e, "component %d of the average is computed from component %d of the samples" % (n, k[2])) or False
        elif k[1] is not r[0][0][1] or g is not r[0][1]:
            ok = c.bad("component", key, e, "component %d of the average is computed from other samples than component 0" % n) or False
        elif loops_same(loop, r[0][2]) is False:
            ok = c.bad("component", key, e, "component %d of the average is collected over other entries than component 0" % n) or False
    if not ok:
        return None
    c.ok("component", e, "%s: components 0, 1, 2 of %s" % (what, show(r[0][0][1])[:100]))
    return r[0]


def all_samples(c, it, e, s, what):
    k, g, loop, x = s
    key = "%s in %s" % (what, e.fn["name"])
    if loop is None:
        return c.und("all", e, "loop unknown")
    f = loop_full(loop)
    gs = [y for y in conj([g]) if y is not TRUE and not benign_guard(y)]
    if f is False:
        c.bad("all", key, e, "the loop over %s leaves samples out" % show(loop.cont if loop.cont is not None else loop.bound)[:160])
    elif gs:
        c.bad("all", key, e, "a sample is used only if %s" % show(gs[0])[:200])
    elif f is None:
        c.und("all", e, "loop not understood")
    else:
        c.ok("all", e, "every sample of %s" % show(loop.cont)[:100])


def run(c):
    c.rule("component", "component i of the average is computed from component i of the samples, the same samples for all components")
    c.rule("fresh", "the sample vectors are empty when the samples of one entry are collected")
    c.rule("all", "every sample of the entry is collected")
    c.rule("key", "the average is stored under the key of the samples it was computed from, for every key")
    c.rule("translation", "the translation is averaged over the same samples as the rotation")
    c.rule("group", "observations are sorted by the object they observe")
    c.rule("conversion", "quaternions (x, y, z, w) and rotation matrices are converted by the formulas of unit quaternions")
    c.rule("callers", "measurements of a kind of pair are averaged into the transforms of that kind")
    c.rule("measured", "two boards, cameras, groups or objects seen together are enough for a measurement of their pair")
    c.rule("weight", "an edge of a co-visibility graph weighs the inverse of the number of measurements of its own pair")
    c.rule("median", "the median is the middle element, or the mean of the two middle elements, of the sorted samples")
    c.rule("average", "the quaternion average accumulates every rotation and the fallback takes the medians in order")
    for fn, it in c.its_calling(GAR, MED):
        if fn["name"] in (GAR, MED):
            continue
        own = fn["name"] not in ("McCalib::handeyeBootstraptTranslationCalibration",)
        done = {}
        for e in it.events:
            if e.kind not in ("call", "icall") or e.f != GAR or len(e.args) < 3:
                continue
            if e.fn["u"] != fn["u"] and e.fn["name"] in KNOWN:
                continue        # judged where the function is a root itself
            s = triple(c, it, e, e.args[:3], "r", "rotation")
            if s is None:
                continue
            if own:
                all_samples(c, it, e, s, "rotation")
            done[e.seq] = (e, s)
        for seq, (e, s) in done.items():
            translation(c, it, e, s, own)
            keyed(c, it, e, s)
    callers(c)
    grouping(c)
    weights(c)
    measured(c)
    median(c)
    average(c)
    conversions(c)
    c.need("component", 2)
    c.need("weight", 2)
    c.need("callers", 2)
    return "other", ("Symbolic evaluation of every averaging site; samples are tracked from the measurement lists to the stored "
                     "average. Decides components, freshness, completeness, keys and weights; the numerical quality is not decided.")


def leaves(v):
    if v.op == "ite":
        return leaves(v.a[1]) + leaves(v.a[2])
    return [v]


def translation(c, it, e, s, own):
    """the translation stored with this rotation"""
    args = e.args
    av = [w for w in it.events if w.kind in ("call", "icall", "write") and w.seq > e.seq]
    # medians collected next to the rotation
    ms = [w for w in it.events if w.kind in ("call", "icall") and w.f == MED and w.seq > e.seq and w.fn["u"] == e.fn["u"]
          and w.loops() == e.loops()]
    nxt = [w.seq for w in it.events if w.kind in ("call", "icall") and w.f == GAR and w.seq > e.seq]
    if nxt:
        ms = [w for w in ms if w.seq < nxt[0]]
    pose = None
    for w in it.events:
        if w.seq <= e.seq or w.kind not in ("write", "ret"):
            continue
        v = w.d.get("val")
        if not isinstance(v, Term):
            continue
        for t in subterms(v):
            if t.op == "pose" and any(x.op == "call" and x.a[0] == GAR and tuple(x.a[1:4]) == tuple(args[:3]) for x in subterms(t.a[0])):
                pose = (w, t.a[1])
                break
        if pose:
            break
        if w.kind == "write" and v.op == "list" and len(v.a) == 6:
            t = [x for x in (mean_of(v.a[3]), ) if x]
            if any(x.op == "call" and x.a[0] == GAR for x in subterms(v.a[0])):
                pose = (w, v.a[3:6])
                break
    if pose is None:
        c.und("translation", e, "where the average is stored is not understood")
        return
    w, t = pose
    key = e.fn["name"]
    if isinstance(t, Term) and t.op == "v3":
        t = t.a
    if isinstance(t, Term):
        parts = [elem(t, C(i)) for i in range(3)]
    else:
        parts = list(t)
    if any(p.op == "call" and p.a[0] == MED for p in parts) and any(isconst(p) for p in parts):
        i = next(i for i, p in enumerate(parts) if isconst(p))
        c.bad("translation", key, w, "component %d of the translation is the constant %s" % (i, show(parts[i])))
        return
    alts = [leaves(p) for p in parts]
    if any(len(a) > 1 for a in alts) and all(x.op == "call" and x.a[0] == MED for a in alts for x in a):
        # the alternatives of a component must be the same component
        for i, a in enumerate(alts):
            for x in a:
                ps = [x if j == i else alts[j][0] for j in range(3)]
                if triple(c, it, w, [p.a[1] for p in ps], "t", "translation") is None:
                    return
        parts = [a[0] for a in alts]
    if all(p.op == "call" and p.a[0] == MED for p in parts):
        s2 = triple(c, it, w, [p.a[1] for p in parts], "t", "translation")
        if s2 is None:
            return
        same = s2[0][1] is s[0][1] or "?" in (s2[0][0], s[0][0])
        c.judge(same and s2[1] is s[1] and loops_same(s2[2], s[2]) is not False, "translation", key, w,
                "median of the same samples", "the translation is averaged over other samples (%s) than the rotation (%s)" %
                (show(s2[0][1])[:160], show(s[0][1])[:160]))
        if own:
            all_samples(c, it, w, s2, "translation")
        return
    # mean: sum / count
    n = 0
    for i, p in enumerate(parts):
        for q in [x for x in leaves(p)]:
            m = mean_of(q)
            if m is None:
                continue
            n += 1
            L, item, g, cnt, idx = m
            if idx is not None and idx != i:
                c.bad("translation", key, w, "component %d of the translation is computed from component %s of the samples" % (i, idx))
                return
            loop = it.loops_by_uid.get(L.a[0])
            K = mk("k", "sample")
            src = src_t(subst(item, {L.a[1]: K}), i)
            if src is None:
                c.und("translation", w, show(item)[:160])
                return
            if src[0] == "r" or src[2] != i:
                c.bad("translation", key, w, "component %d of the translation is the mean of %s" % (i, show(item)[:160]))
                return
            if not same_object(src[1], s[0][1]):
                c.bad("translation", key, w, "the translation is averaged over %s, the rotation over %s" % (show(src[1])[:160], show(s[0][1])[:160]))
                return
            if subst(g, {L.a[1]: K}) is not s[1] or loops_same(loop, s[2]) is False:
                c.bad("translation", key, w, "the translation is averaged over other samples than the rotation")
                return
            if cnt.op == "size" and loop is not None and loop.cont is not None:
                if not same_cont(it, cnt.a[0], loop.cont):
                    if cnt.a[0].op not in ("fld", "arg") and root(cnt.a[0]).op not in ("this", "arg"):
                        c.und("translation", w, "divided by %s" % show(cnt)[:100])
                        return
                    c.bad("translation", key, w, "the sum over %s is divided by the size of %s" % (show(loop.cont)[:100], show(cnt.a[0])[:100]))
                    return
            elif isconst(cnt):
                c.bad("translation", key, w, "the sum of the samples is divided by the constant %s" % show(cnt))
                return
    if n:
        c.ok("translation", w, "mean of the same samples, component by component")
    else:
        c.und("translation", w, "%s" % show(parts[0])[:160])


def same_cont(it, v, loc):
    if v is loc:
        return True
    if it.store.get(loc) is v:
        return True
    if v.op in ("elem", "fld") and loc.op == v.op and v.a[1] is loc.a[1] or v.op == "fld" and loc.op == "fld" and v.a[1] == loc.a[1]:
        return same_cont(it, v.a[0], loc.a[0])
    if v.op == "collect":
        return True
    return False


def mean_of(q):
    """(loop, item, guard, count, component) of  sum / count"""
    idx = None
    if q.op == "elem" and isconst(q.a[1]):
        idx = q.a[1].a[0]
        q = q.a[0]
    if q.op == "cvop" and q.a[0] == "/":
        s, cnt = q.a[1], q.a[2]
    elif q.op == "op" and q.a[0] == "/":
        s, cnt = q.a[1], q.a[2]
    else:
        return None
    if s.op == "elem" and isconst(s.a[1]):
        idx = s.a[1].a[0]
        s = s.a[0]
    if s.op == "sum":
        return s.a[0], s.a[2], s.a[3], cnt, idx
    if s.op == "fix":
        L, init, head, step = s.a
        gs = []
        st = step
        while st.op == "ite":
            if st.a[2] is head:
                gs.append(st.a[0])
                st = st.a[1]
            elif st.a[1] is head:
                gs.append(unop("!", st.a[0]))
                st = st.a[2]
            else:
                break
        g = TRUE
        for x in gs:
            g = x if g is TRUE else binop("&&", g, x)
        if st.op in ("cvop", "op") and st.a[0] == "+" and st.a[1] is head:
            return L, st.a[2], g, cnt, idx
    return None


def src_t(item, i):
    """source of component i of a sample vector or sample component"""
    k = comp(item)
    if k:
        return k
    if item.op == "v3":
        k = comp(item.a[i])
        if k:
            return k
    if item.op == "t":
        return "t", item.a[0], i
    if item.op == "rod":
        return "r", item.a[0].a[0] if item.a[0].op == "R" else item.a[0], i
    return None


def same_object(a, b):
    if a is b:
        return True
    return False


def keyed(c, it, e, s):
    src = s[0][1]
    cont = None
    L = s[2]
    for w in it.events:
        if w.kind not in ("write", "mapins") or w.seq <= e.seq:
            continue
        v = w.d["val"]
        if not any(t.op == "call" and t.a[0] == GAR and tuple(t.a[1:4]) == tuple(e.args[:3]) for t in subterms(v)):
            continue
        loc = w.loc if w.kind == "write" else mk("elem", w.cont, w.key)
        if loc.op != "elem" or loc.a[0].op == "elem":
            continue
        if root(loc).op == "var":
            continue
        if "object_observations_" in show(loc):
            continue
        k = loc.a[1]
        if L is None or L.cont is None:
            c.und("key", w, "samples of an unknown container")
            continue
        sk = key_of(L.cont, it)
        if sk is None:
            c.und("key", w, "samples %s" % show(L.cont)[:100])
            continue
        if sk is k:
            c.ok("key", w, "stored under the key of its samples")
        elif k.op in ("k", "mkpair", "c", "fld") or k.op == "elem" and isconst(k.a[1]) and k.a[0].op != "var":
            c.bad("key", w.fn["name"], w, "the average of the samples of %s is stored under %s" % (show(sk)[:80], show(k)[:80]))
        else:
            c.und("key", w, show(k)[:80])
        bad = [l for l in w.loops() if loop_full(l) is False]
        fs = filters(w)
        if bad:
            c.bad("key", "entries in " + w.fn["name"], w, "the loop over %s leaves entries out" % show(bad[0].cont or bad[0].bound)[:100])
        elif fs:
            c.bad("key", "entries in " + w.fn["name"], w, "an average is stored only if %s" % show(fs[0])[:160])
        else:
            c.ok("key", w, "every entry")


def key_of(cont, it):
    """the key under which a list of samples is found"""
    if cont.op == "elem":
        return cont.a[1]
    return None


def grouping(c):
    """observations of a camera group are sorted by the object they observe"""
    for fn, it in c.its_calling(GAR):
        if not fn["name"].startswith("McCalib::CameraGroupObs::"):
            continue
        for e in it.events:
            if e.kind != "push" or e.cont.op != "elem" or root(e.cont).op != "var":
                continue
            k = e.cont.a[1]
            gs = [g for g in e.guards() if not benign_guard(g)]
            cmpg = [g for g in gs if g.op == "op" and g.a[0] in ("==", "!=", "<", ">", "<=", ">=") and
                    any(x is k for x in g.a[1:])]
            if len(gs) == 1 and len(cmpg) == 1:
                c.judge(gs[0].a[0] == "==", "group", fn["name"], e, "an observation is listed under its own object",
                        "an observation is listed under the object %s if %s" % (show(k)[:80], show(gs[0])[:160]))
            elif not gs:
                ok = contains(k, e.val) or k.op == "elem"
                c.judge(True if ok else None, "group", fn["name"], e, "listed under its own object")
            else:
                c.und("group", e, "%s" % [show(g)[:80] for g in gs])


def callers(c):
    for fn, it in c.its_calling(CAL + "::initInterTransform", opaque=AVG + GRAPH + (CAL + "::initInterTransform",), tag="iit"):
        for e in it.events:
            if e.kind in ("call", "icall") and e.f == CAL + "::initInterTransform" and e.fn["u"] == fn["u"]:
                a = [x for x in (e.d.get("alocs") or e.d.get("locs") or e.args) if isinstance(x, Term)]
                names = [fieldname(x) for x in e.args]
                locs = e.d.get("locs") or ()
                n2 = [fieldname(x) for x in locs if isinstance(x, Term)]
                src = next((n for n in names + n2 if n in PAIRS), None)
                dst = next((n for n in n2 + names if n and n.startswith("inter_")), None)
                if src is None or dst is None:
                    c.und("callers", e, str(names + n2))
                    continue
                c.judge(PAIRS[src][0] == dst, "callers", "%s into %s" % (src, dst), e, "%s averaged into %s" % (src, dst),
                        "the measurements %s are averaged into %s" % (src, dst))


def fieldname(x):
    while isinstance(x, Term):
        if x.op == "fld" and x.a[0].op == "this":
            return x.a[1]
        if x.op in ("elem", "fld", "agg", "filled", "lam", "fix") and x.a and isinstance(x.a[0], Term):
            x = x.a[0]
            continue
        if x.op in ("fix", "filled", "lam"):
            x = x.a[1] if isinstance(x.a[1], Term) else None
            continue
        return None
    return None


def weights(c):
    for fn, it in c.its_calling("Graph::addEdge"):
        for e in it.events:
            if e.kind not in ("call", "icall") or e.f.split("::")[-1] != "addEdge" or e.f != "Graph::addEdge" and "Graph::addEdge" not in e.f:
                continue
            if e.fn["u"] != fn["u"] and e.fn["name"] in KNOWN:
                continue
            a = e.args
            if len(a) < 3:
                continue
            k1, k2, w = a[-3:]
            g = e.d.get("o")
            gname = fieldname(g) if isinstance(g, Term) else None
            key = "%s in %s" % (gname, e.fn["name"])
            pk = pair_key(k1, k2)
            cont, inv, why = weight(w)
            if cont is None:
                if why == "offset":
                    c.bad("weight", key, e, "the weight %s is not the inverse of the number of measurements" % show(w)[:120])
                elif why == "trunc":
                    c.bad("weight", key, e, "the weight %s is truncated to an integer" % show(w)[:120])
                elif isconst(w):
                    c.bad("weight", key, e, "the weight is the constant %s" % show(w))
                else:
                    c.und("weight", e, "weight %s" % show(w)[:120])
                continue
            if not inv:
                c.bad("weight", key, e, "the weight is the number of measurements, not its inverse (%s)" % show(w)[:120])
                continue
            if cont.op == "fld" and cont.a[0].op == "this" and (
                    cont.a[1] in PAIRS or cont.a[1] in ("no_overlap_camgroup_pair_pose_", "no_overlap__camgroup_pair_common_cnt_")):
                c.bad("weight", key, e, "the weight is the inverse of the number of pairs, not of the measurements of the pair")
                continue
            base, ck = (cont.a[0], cont.a[1]) if cont.op == "elem" else (None, None)
            if base is None or pk is None:
                c.und("weight", e, "%s between %s, %s" % (show(w)[:100], show(k1)[:40], show(k2)[:40]))
                continue
            nm = fieldname(base)
            okk = pk is ck or flip(pk) is ck
            if not okk:
                c.bad("weight", key, e, "the edge of pair %s is weighted by the measurements of pair %s" % (show(pk)[:80], show(ck)[:80]))
                continue
            exp = PAIRS.get(nm)
            if exp and gname and gname != exp[1] and gname in [v[1] for v in PAIRS.values()]:
                c.bad("weight", key, e, "the graph %s is built from %s" % (gname, nm))
                continue
            bad = [l for l in e.loops() if loop_full(l) is False]
            fs = filters(e)
            if bad or fs:
                c.bad("weight", key, e, "pairs are left out of the graph: %s" % show(fs[0] if fs else (bad[0].cont or bad[0].bound))[:160])
                continue
            c.ok("weight", e, "1 / number of measurements of the pair")


def measured(c):
    """two views (boards, cameras, objects) are enough for a measurement of a pair"""
    for fn, it in c.its():
        for e in it.events:
            if e.kind != "push" or e.fn["u"] != fn["u"]:
                continue
            t = e.cont
            nm = next((x.a[1] for x in subterms(t) if x.op == "fld" and x.a[0].op == "this" and x.a[1] in PAIRS), None)
            if nm is None:
                continue
            low = [g for g in e.guards() if refuses(g, 2)]
            c.judge(not low, "measured", "%s in %s" % (nm, e.fn["name"]), e, "two of them give a measurement",
                    "the measurement is stored only if %s: pairs seen alone are left out" % show(low[0])[:120] if low else "")


def pair_key(k1, k2):
    if k1.op == "fld" and k2.op == "fld" and k1.a[0] is k2.a[0]:
        if (k1.a[1], k2.a[1]) in (("first", "second"), ("second", "first")):
            return k1.a[0]
    return mk("mkpair", k1, k2)


def flip(p):
    return mk("mkpair", p.a[1], p.a[0]) if p.op == "mkpair" else p


def weight(w):
    """(container or count location, inverse?, why) of an edge weight"""
    if w.op == "trunc" or any(t.op == "trunc" for t in subterms(w)):
        return None, None, "trunc"
    if w.op == "op" and w.a[0] == "idiv" or any(t.op == "op" and t.a[0] == "idiv" for t in subterms(w)):
        return None, None, "trunc"
    if w.op == "op" and w.a[0] == "/" and isconst(w.a[1]) and w.a[1].a[0] == 1:
        d = w.a[2]
        if d.op == "size":
            return d.a[0], True, ""
        if d.op == "elem":
            return d, True, ""
        if d.op == "op" and d.a[0] in ("+", "-", "*", "/") and len(d.a) == 3 and any(isconst(x) for x in d.a[1:]) and \
                any(x.op == "size" or x.op == "elem" and fieldname(x) in ("no_overlap__camgroup_pair_common_cnt_",) for x in d.a[1:]):
            return None, None, "offset"
    if w.op == "size":
        return w.a[0], False, ""
    if w.op == "elem" and fieldname(w) in ("no_overlap__camgroup_pair_common_cnt_",):
        return w, False, ""
    return None, None, ""


def median(c):
    if not c.has(MED):
        return
    it = c.it(MED)
    fn = it.entry.fn
    v = mk("arg", fn["params"][0]["n"], 0)
    n = mk("size", v)
    half = binop("idiv", n, C(2))
    N = Norm()
    got = {}

    def go(t, path):
        if t.op == "ite":
            go(t.a[1], path + [(t.a[0], True)])
            go(t.a[2], path + [(t.a[0], False)])
        else:
            got[tuple(path)] = t
    go(it.ret, [])
    for path, t in got.items():
        par = None
        for g, pos in path:
            p = parity(g, n)
            if p is not None:
                par = p if pos else not p
        if par is None:
            continue
        idx = [x.a[1] for x in subterms(t) if x.op == "elem" and x.a[0] is v]
        if par:      # even
            want = {half, binop("-", half, C(1))}
            if not idx or not all(isinstance(x, Term) for x in idx):
                c.und("median", fn, show(t)[:120])
                continue
            q = N(t)
            ref = N(binop("/", binop("+", mk("elem", v, half), mk("elem", v, binop("-", half, C(1)))), C(2.0)))
            c.judge(q.eq(ref) if set(idx) <= want else known_idx(idx, n, half) and False, "median", "even", fn,
                    "mean of the two middle elements", "for an even number of samples the median is %s" % show(t)[:160])
        else:
            c.judge(True if t.op == "elem" and t.a[1] is half else False if t.op == "elem" and known_idx([t.a[1]], n, half) else None,
                    "median", "odd", fn, "middle element", "for an odd number of samples the median is %s" % show(t)[:160])
    srt = [e for e in it.events if e.kind in ("call", "icall") and e.f in ("std::sort", "std::stable_sort")]
    if srt:
        e = srt[0]
        c.judge(True if e.args[0] is mk("begin", v) and e.args[1] is mk("end", v) else False if partial(e)
                else None, "median", "sorted", e, "all samples are sorted", "only a part of the samples is sorted: %s" %
                ", ".join(show(x)[:60] for x in e.args))
    else:
        other = [e for e in it.events if e.kind in ("call", "icall") and e.f.startswith("std::") and "sort" in e.f or
                 e.kind in ("call", "icall") and "nth_element" in e.f]
        c.judge(None if other else False, "median", "sorted", fn, "ordering by %s" % [x.f for x in other],
                "the samples are not sorted before the middle element is taken")


def partial(e):
    x = e.d.get("expr")
    a = (x.get("a") if isinstance(x, dict) else None) or []
    return any((n.get("k") in ("bin", "call")) and n.get("op") in ("/", "-", "--") for y in a for n in walk(y))


def known_idx(idx, n, half):
    return all(not [t for t in subterms(i) if t.op in ("undef", "lam", "fix", "call")] for i in idx)


def parity(g, n):
    """True if g says that n is even, False if odd"""
    if g.op == "op" and g.a[0] == "!":
        p = parity(g.a[1], n)
        return None if p is None else not p
    if g.op == "op" and g.a[0] in ("==", "!="):
        xs = [x for x in g.a[1:] if isinstance(x, Term)]
        m = [x for x in xs if x.op == "op" and x.a[0] == "%" and x.a[1] is n and isconst(x.a[2]) and x.a[2].a[0] == 2]
        k = [x for x in xs if isconst(x)]
        if m and k:
            e = k[0].a[0] == 0
            return e if g.a[0] == "==" else not e
    return None


def average(c):
    if not c.has(GAR):
        return
    it = c.it(GAR)
    fn = it.entry.fn
    A = [mk("arg", p["n"], i) for i, p in enumerate(fn["params"])]
    # fallback: medians in order
    for e in it.events:
        if e.kind == "write" and e.val.op == "call" and e.val.a[0] == MED and e.loc.op == "elem" and isconst(e.loc.a[1]):
            i = e.loc.a[1].a[0]
            if not isinstance(i, int) or not 0 <= i < 3:
                continue
            src = sorted_(e.val.a[1])
            j = next((k for k in range(3) if src is A[k]), None)
            c.judge(None if j is None else i == j, "average", "median %d" % i, e, "component %d is the median of component %d" % (i, i),
                    "component %s of the average is the median of component %s" % (i, j))
            pol = [g for g in e.guards() if contains(g, A[3])] if len(A) > 3 else []
            if pol:
                c.judge(None if len(pol) > 1 else pol[0] is not A[3], "average", "method", e, "medians when quaternion averaging is off",
                        "the medians are used when quaternion averaging is on")
    # quaternions of all samples
    for e in it.events:
        if e.kind in ("call", "icall") and e.f == "McCalib::convertRotationMatrixToQuaternion":
            ls = e.loops()
            if len(ls) != 1:
                c.und("average", e, "quaternions outside a single loop")
                continue
            f = loop_full(ls[0])
            fs = filters(e)
            pol = [g for g in fs if len(A) > 3 and not contains(g, A[3])]
            if f is False or pol:
                c.bad("average", "samples", e, "not every rotation is averaged: %s" % (show(pol[0])[:120] if pol else "the loop leaves some out"))
            else:
                c.judge(f, "average", "samples", e, "every rotation is converted")
            # angles of one and the same sample
            cell = angles(it, e)
            if cell:
                ok = all(x.op == "elem" and x.a[0] is A[i] and x.a[1] is cell[0].a[1] for i, x in enumerate(cell)) if \
                    cell[0].op == "elem" else None
                plain = all(x.op == "elem" and x.a[0] in A for x in cell)
                c.judge(ok if ok or plain else None, "average", "angles", e, "components 0, 1, 2 of one sample",
                        "the rotation vector is assembled from %s" % ", ".join(show(x)[:40] for x in cell))
            mats = [t for t in subterms(e.args[0]) if t.op == "rod"]
    # accumulation
    for t in {x for x in subterms(it.ret) if x.op == "fix"}:
        L, init, head, step = t.a
        if not any(x.op == "mul" for x in subterms(step)) or init.op != "zeros":
            continue
        loop = it.loops_by_uid.get(L.a[0])
        f = loop_full(loop) if loop is not None else None
        if step.op == "cvop" and step.a[0] == "+" and step.a[1] is head:
            m = step.a[2]
            good = m.op == "mul" and len(m.a) == 2 and m.a[0].op == "t" and m.a[0].a[0] is m.a[1]
            c.judge(False if f is False else True if good and f else None, "average", "accumulate", fn,
                    "A = sum over every sample of q^T q", "not every quaternion is accumulated")
        elif step.op == "ite":
            c.bad("average", "accumulate", fn, "a quaternion is accumulated only if %s" % show(step.a[0])[:120])
        elif not contains(step, head):
            c.bad("average", "accumulate", fn, "the accumulator is overwritten by each sample instead of summed")
        else:
            c.und("average", fn, show(step)[:120])
    for t in {x for x in subterms(it.ret) if x.op == "lastof"}:
        if any(x.op == "mul" for x in subterms(t.a[2])) and t.a[1].op == "zeros":
            c.bad("average", "accumulate", fn, "the accumulator is overwritten by each sample instead of summed")
    # the principal eigenvector in order x y z w
    for e in it.events:
        if e.kind in ("call", "icall") and e.f == "McCalib::convertQuaternionToRotationMatrix":
            a = e.args[0]
            if a.op == "list" and len(a.a) == 4:
                ix = [x.a[1] for x in a.a if x.op == "elem"]
                if len(ix) == 4 and all(k.op == "ij" and isconst(k.a[0]) and isconst(k.a[1]) for k in ix) and \
                        len({x.a[0] for x in a.a}) == 1 and a.a[0].a[0].op == "fld":
                    m = a.a[0].a[0].a[1]
                    got = [(k.a[0].a[0], k.a[1].a[0]) for k in ix]
                    want = [(i, 0) for i in range(4)] if m == "u" else [(0, i) for i in range(4)] if m == "vt" else None
                    c.judge(None if want is None else got == want, "average", "eigenvector", e, "dominant eigenvector, in order",
                            "the average quaternion is read from entries %s of %s" % (got, m))


def conversions(c):
    """entries of the matrix of a quaternion (x, y, z, w), and of the quaternion of a matrix where the trace is positive"""
    name = "McCalib::convertQuaternionToRotationMatrix"
    if c.has(name):
        it = c.it(name)
        fn = it.entry.fn
        q = mk("arg", fn["params"][0]["n"], 0)
        N = Norm()
        v = [elem(q, C(i)) for i in range(4)]
        mul = lambda a, b: binop("*", a, b)
        add = lambda a, b: binop("+", a, b)
        sub = lambda a, b: binop("-", a, b)
        two = C(2.0)
        nrm = add(add(mul(v[0], v[0]), mul(v[1], v[1])), add(mul(v[2], v[2]), mul(v[3], v[3])))
        done = set()
        for e in it.events:
            if e.kind != "write" or e.loc.op != "elem" or e.loc.a[1].op != "ij" or not all(isconst(x) for x in e.loc.a[1].a):
                continue
            r, k = [x.a[0] for x in e.loc.a[1].a]
            if not (r in (0, 1, 2) and k in (0, 1, 2)):
                continue
            lv = {x for x in subterms(e.val) if x.op not in ("op", "elem", "arg", "i", "k", "neg") and not isconst(x) and x is not q}
            if lv or e.guards():
                c.und("conversion", e, show(e.val)[:100])
                continue
            if r == k:
                o = [i for i in range(3) if i != r]
                base = mul(two, add(mul(v[3], v[3]), mul(v[r], v[r])))
                alt = mul(two, add(mul(v[o[0]], v[o[0]]), mul(v[o[1]], v[o[1]])))
                refs = [sub(base, C(1.0)), sub(C(1.0), alt), sub(base, nrm), sub(nrm, alt)]
            else:
                o = 3 - r - k
                s = 1 if (k - r) % 3 == 2 else -1      # (1,0), (2,1), (0,2): plus
                a, b = mul(two, mul(v[r], v[k])), mul(two, mul(v[o], v[3]))
                refs = [add(a, b) if s > 0 else sub(a, b)]
            done.add((r, k))
            c.judge(any(N(e.val).eq(N(x)) for x in refs), "conversion", "entry %d %d" % (r, k), e, "entry (%d, %d) of the rotation of a unit quaternion" % (r, k),
                    "entry (%d, %d) is %s: not the rotation of the quaternion" % (r, k, show(e.val)[:120]))
        if len(done) not in (0, 9):
            c.und("conversion", fn, "%d entries" % len(done))
    name = "McCalib::convertRotationMatrixToQuaternion"
    if c.has(name):
        it = c.it(name)
        fn = it.entry.fn
        R = mk("arg", fn["params"][0]["n"], 0)
        at = lambda i, j: elem(R, mk("ij", C(i), C(j)))
        N = Norm()
        d3 = [at(x, x) for x in range(3)]
        one = C(1.0)
        # the square root of each case names the component that is not computed from a difference
        piv = {3: N(binop("+", one, binop("+", binop("+", d3[0], d3[1]), d3[2])))}
        for p in range(3):
            o = [d3[x] for x in range(3) if x != p]
            piv[p] = N(binop("-", binop("-", binop("+", one, d3[p]), o[0]), o[1]))

        def choices(t):
            """largest conditional expressions which choose between constant indices"""
            def leaves(x):
                return leaves(x.a[1]) and leaves(x.a[2]) if x.op == "ite" else isconst(x) and x.a[0] in (0, 1, 2)
            out = set()
            st = [t]
            while st:
                x = st.pop()
                if isinstance(x, tuple):
                    st.extend(x)
                elif hasattr(x, "op"):
                    if x.op == "ite" and leaves(x):
                        out.add(x)
                    else:
                        st.extend(x.a)
            return out
        for e in it.events:
            if e.kind != "write" or e.loc.op != "elem" or e.loc.a[1].op != "ij":
                continue
            ch = choices((e.loc.a[1], e.val))
            for v0 in ((None,) if not ch else (0, 1, 2) if len(ch) == 1 else ()):
                m = {x: C(v0) for x in ch}
                ij, val = (e.loc.a[1], e.val) if not ch else (subst(e.loc.a[1], m), subst(e.val, m))
                if ij.op != "ij" or not all(isconst(x) for x in ij.a):
                    continue
                i = max(x.a[0] for x in ij.a)
                roots = {t for t in subterms(val) if t.op == "call" and t.a[0] == "sqrt"}
                ps = [p for t in roots for p, q in piv.items() if N(t.a[1]).eq(q)]
                if len(roots) != 1 or len(ps) != 1 or i not in (0, 1, 2, 3) or i == ps[0] or val.op != "op" or val.a[0] != "*":
                    continue
                p = ps[0]
                d = [x for x in val.a[1:] if all(y.op in ("op", "elem", "ij", "arg") or isconst(y) for y in subterms(x)) and contains(x, R)]
                if len(d) != 1:
                    continue
                if p == 3 or i == 3:
                    n = i if p == 3 else p
                    j, k = (n + 1) % 3, (n + 2) % 3
                    want = binop("-", at(k, j), at(j, k))
                else:
                    want = binop("+", at(p, i), at(i, p))
                c.judge(N(d[0]).eq(N(want)), "conversion", "component %d of pivot %d" % (i, p), e, "component %d of the quaternion, case of component %d" % (i, p),
                        "component %d of the quaternion is taken from %s" % (i, show(d[0])[:100]))


def angles(it, e):
    for t in subterms(e.args[0]):
        if t.op in ("list", "v3") and len(t.a) == 3:
            return list(t.a)
    return None
