"""C09: only detections that pass every acceptance test are used."""
from sa.core import *
from sa.poly import *
from sa.views import *

CORNERS = ("cv::aruco::interpolateCornersCharuco", 4)
IDS = ("cv::aruco::interpolateCornersCharuco", 5)
SADDLE = "McCalib::saddleSubpixelRefinement"
BO = NS + "BoardObs"
ROUND = ("std::round", "round", "std::lround", "lround", "std::floor", "floor", "std::ceil", "ceil", "std::rint", "std::nearbyint", "roundf", "floorf", "ceilf", "cvRound", "cvFloor", "cvCeil",
         "std::trunc")


def run(c):
    c.rule("count", "a board is recorded only with more corners than the configured fraction of the corners of that board")
    c.rule("minimum", "a board is recorded only with more than four corners")
    c.rule("collinear", "a board is recorded only if its corners are away from a line, compared with the square size of that board")
    c.rule("distance", "the collinearity measure is the mean distance of the corners on the board to the fitted line")
    c.rule("refine", "corners are refined when and only when refinement is configured, before they are recorded")
    c.rule("same", "a refined corner replaces the detected corner of the same index")
    c.rule("saddle", "the refinement moves a corner to the point where the gradient of the surface fitted around it vanishes")
    for fn in c.roots():
        if fn["name"].split("::")[-1] in ("main", "runCalibrationWorkflow"):
            continue
        it = c.it(fn)
        recs = {}
        for e in it.events:
            if e.kind == "write" and e.loc.op == "fld" and e.loc.a[0].op == "new" and str(e.loc.a[0].a[0]) == BO and e.loc.a[1] in ("pts_2d_", "charuco_id_", "board_id_"):
                recs.setdefault(e.loc.a[0], {})[e.loc.a[1]] = e
        for o, d in recs.items():
            if "pts_2d_" in d and detected(d["pts_2d_"].val):
                record(c, fn, it, d)
    subpixel(c)
    for r in ("count", "minimum", "collinear", "distance", "refine", "same"):
        c.need(r, 1)
    return "other", "Conditions under which a detected board is recorded, as terms over the detector's output and the board; refinement by element-wise list terms."


def outs(t, what):
    return {x for x in subterms(t) if x.op == "out" and x.a[0] == what[0] and num_(x.a[1]) == what[1]}


def num_(x):
    return x.a[0] if isinstance(x, Term) and isconst(x) else x


def detected(t):
    return any(x.op == "out" and str(x.a[0]).startswith("cv::aruco::interpolateCorners") or x.op == "out" and "CharucoDetector::" in str(x.a[0]) for x in subterms(t))


def heads(l, d=0):
    """the detector outputs a list is made of, element by element; None when it is something else"""
    if d > 12:
        return None
    if l.op == "out" and (l.a[0], num_(l.a[1])) in (CORNERS, IDS):
        return {l}
    if l.op == "out" and l.a[0] == SADDLE and num_(l.a[1]) == 2:
        return heads(l.a[3], d + 1)
    if l.op == "out" and l.a[0] in ("cv::cornerSubPix",):
        return heads(l.a[2 + num_(l.a[1])], d + 1)
    if l.op in ("agg", "filled"):
        return heads(l.a[0] if l.op == "agg" else l.a[1], d + 1)
    if l.op == "elem":
        return heads(l.a[0], d + 1) if l.a[0].op in ("agg", "filled", "ite") else set()
    if l.op == "lam" or l.op in ("empty", "var", "fld"):
        return set()
    if l.op == "ite":
        a, b = heads(l.a[1], d + 1), heads(l.a[2], d + 1)
        return None if a is None or b is None else a | b
    if l.op == "collect" and l.a[3] in (TRUE, None):
        return heads(l.a[0], d + 1) if isinstance(l.a[0], Term) and l.a[0].op != "L" else set()
    return None


def cmp(g):
    """(smaller, larger, strict) of a comparison"""
    neg = False
    while g.op in ("!", "op") and (g.op == "!" or g.a[0] == "!"):
        neg = not neg
        g = g.a[-1]
    if g.op != "op" or len(g.a) != 3 or g.a[0] not in ("<", "<=", ">", ">="):
        return None
    o, a, b = g.a
    if o in (">", ">="):
        a, b, o = b, a, "<" if o == ">" else "<="
    if neg:
        return b, a, o == "<="
    return a, b, o == "<"


def flat(gs):
    for g in gs:
        if g.op == "&&" or g.op == "op" and g.a[0] in ("&&", "&"):
            yield from flat([x for x in g.a if isinstance(x, Term)])
        elif (g.op == "!" or g.op == "op" and g.a[0] == "!") and (g.a[-1].op == "||" or g.a[-1].op == "op" and g.a[-1].a[0] in ("||", "|")):
            yield from flat([unop("!", x) for x in g.a[-1].a if isinstance(x, Term)])
        else:
            yield g


def uncast(x):
    while x.op in ("cast", "trunc") or x.op == "call" and x.a[0] in ROUND and len(x.a) == 2:
        x = x.a[-1]
    return x


def sized(x):
    """the detector outputs whose length a term is"""
    x = uncast(x)
    if x.op == "size":
        return heads(x.a[0])
    if x.op == "ite":
        a, b = sized(x.a[1]), sized(x.a[2])
        return None if a is None or b is None else a | b
    return None


def fields(t, n):
    return {x for x in subterms(t) if x.op == "fld" and x.a[1] == n}


def record(c, fn, it, d):
    e = d["pts_2d_"]
    key = fn["name"].split("McCalib::")[-1]
    F = Frames(c, fn, it, {})
    F.assume(e.guards())
    src = heads(e.val)
    if not src:
        for r in ("count", "minimum", "collinear", "distance", "refine", "same"):
            c.und(r, e, "recorded corners %s" % show(e.val)[:200])
        return
    det = next(iter(src))
    ids = {mk("out", IDS[0], C(5) if isinstance(det.a[1], Term) else 5, *det.a[2:])} | {mk("out", IDS[0], 5, *det.a[2:]), mk("out", IDS[0], C(5), *det.a[2:])}
    board = F.G("boards_3d_", F.canon(d["board_id_"].val)) if "board_id_" in d else None
    gs = list(flat(e.guards()))
    if len(src) > 1:
        c.und("count", e, "several detections")
        return
    counts(c, F, e, gs, det, ids, board, key)
    collinear(c, F, it, e, gs, det, ids, board, key)
    refinement(c, F, fn, it, e, gs, det, key)


def mine(F, f, board):
    """True / False / None: the field belongs to this board"""
    b = F.canon(f.a[0])
    if board is None:
        return None
    if b is board or F.equal(b, board):
        return True
    return False if b.op == "elem" and F.known(b) and F.known(board) else None


def isnot(g):
    return g.op == "!" or g.op == "op" and g.a[0] == "!"


def isor(g):
    return g.op == "||" or g.op == "op" and g.a[0] in ("||", "|")


def either(g, test):
    """verdict of a test on a condition; a disjunction has to imply it in every case"""
    if isor(g):
        rs = [either(x, test) for x in g.a if isinstance(x, Term)]
        if all(r is not None and r[0] is True for r in rs):
            return True, ""
        if all(r is None for r in rs):
            return None
        if any(r is not None and r[0] is None for r in rs) or not all(cmp(x) for x in g.a if isinstance(x, Term)):
            return None, show(g)[:120]
        return False, "a board is recorded although one of the tests failed: either of them is enough"
    return test(g)


def counts(c, F, e, gs, det, ids, board, key):
    def perc(g):
        m, ps = cmp(g), fields(g, "min_perc_pts_")
        if not ps:
            return None
        return fraction(F, *m, ps, det, ids, board) if m else (None, show(g)[:120])

    def least(g):
        m = cmp(g)
        if fields(g, "min_perc_pts_"):
            return None
        if m is None:
            if isnot(g) and g.a[-1].op == "isempty" or g.op == "isempty":
                return None
            if any(x.op in ("size", "isempty") and (heads(x.a[0]) or set()) & ({det} | ids) for x in subterms(g)):
                return None, show(g)[:120]
            return None
        lo, hi, strict = m
        for s, k, up in ((hi, lo, True), (lo, hi, False)):
            h = sized(s)
            k = uncast(k)
            if not isconst(k) or uncast(s).op != "size":
                continue
            if not h:
                continue
            if not up:
                return False, "boards with fewer corners are recorded"
            if h <= {det} | ids:
                n = (int(k.a[0] // 1) + 1) if strict else -(-k.a[0] // 1)
                return (True, "") if n >= 5 else (False, "a board with %d corners is recorded" % n)
            return False, "the number of corners of another detection is tested"
        return None
    settle(c, [v for v in (either(g, perc) for g in gs) if v], "count", key, e,
           "the number of detected corners is not compared with the configured fraction of the corners of the board before it is recorded")
    settle(c, [v for v in (either(g, least) for g in gs) if v], "minimum", key, e, "a board is recorded whatever its number of corners: more than four are required")


def settle(c, vs, rule, key, e, absent):
    if any(v[0] is True for v in vs):
        c.ok(rule, e, key)
    elif any(v[0] is None for v in vs):
        c.und(rule, e, [v[1] for v in vs if v[0] is None][0])
    elif vs:
        c.bad(rule, key, e, vs[0][1])
    else:
        c.bad(rule, key, e, absent)


def fraction(F, lo, hi, strict, perc, det, ids, board):
    if not any(fields(lo, "min_perc_pts_")):
        if fields(hi, "min_perc_pts_") and sized(lo):
            return False, "boards with fewer corners than the configured fraction are recorded"
        return None, show(hi)[:120]
    h = sized(hi)
    if not h or not h <= {det} | ids:
        u = uncast(hi)
        other = h or u.op == "size" and not any(x is det or x in ids for x in subterms(u)) and \
            not any(x.op == "call" and not str(x.a[0]).startswith(("cv::", "std::")) for x in subterms(u))
        return (False, "the number compared with the threshold is not the number of corners of the recorded board") if other else (None, show(hi)[:120])
    x = uncast(lo)
    P1 = next(iter(perc))
    q = Norm()(x)
    at = [a for a in q.atoms() if a is not P1]
    if len(at) == 1 and q.eq(Norm()(P1) * Norm()(at[0])):
        a = uncast(at[0])
        if a.op == "fld" and a.a[1] == "nb_pts_" or a.op == "size" and a.a[0].op == "fld" and a.a[0].a[1] == "pts_3d_":
            m = mine(F, a if a.op == "fld" else a.a[0], board)
            if m is False:
                return False, "the threshold is a fraction of the corners of %s, not of the recorded board" % show(F.canon((a if a.op == "fld" else a.a[0]).a[0]))[:80]
            if m is None:
                return None, show(x)[:120]
            if not strict:
                return False, "a board is recorded with exactly the configured fraction of its corners"
            return True, ""
        if a.op == "fld":
            return False, "the threshold is a fraction of %s" % a.a[1]
        return None, show(x)[:120]
    if not at:
        return False, "the threshold does not depend on the number of corners of the board"
    sq = [a for a in at if a.op == "fld" and a.a[1] in ("nb_x_square_", "nb_y_square_")]
    if len(at) == 2 and len(sq) == 2 and sq[0].a[1] != sq[1].a[1] and q.eq(Norm()(P1) * (Norm()(sq[0]) - num(1)) * (Norm()(sq[1]) - num(1))):
        ms = [mine(F, a, board) for a in sq]
        if all(ms):
            return (True, "") if strict else (False, "a board is recorded with exactly the configured fraction of its corners")
        return (False, "the threshold is a fraction of the corners of another board") if False in ms else (None, show(x)[:120])
    if all(a.op == "fld" and a.a[1] in ("nb_pts_", "nb_x_square_", "nb_y_square_", "square_size_") for a in at):
        return False, "the threshold is not the configured fraction of the number of corners of the board"
    return None, show(x)[:120]


# ------------------------------------------------------------------ collinearity
def lineouts(t):
    return {x for x in subterms(t) if x.op == "out" and x.a[0] == "cv::fitLine"}


def collinear(c, F, it, e, gs, det, ids, board, key):
    measures = []

    def test(g):
        sq = fields(g, "square_size_")
        ln = lineouts(g)
        if not sq and not ln:
            return None
        m = cmp(g)
        if m is None:
            return None, show(g)[:120]
        lo, hi, strict = m
        if not ln:
            return None
        if lineouts(lo):
            return (None, show(g)[:120]) if lineouts(hi) else (False, "boards whose corners are on a line are recorded, others are not")
        if not sq:
            return (False, "the distance to the line is not compared with the square size of the board") if isconst(uncast(lo)) else (None, show(lo)[:120])
        one, two = (Norm()(subst(lo, {x: C(n) for x in sq})).const() for n in (1, 2))
        k = one if one is not None and two == 2 * one else None
        if k is None or len(sq) != 1:
            return None, show(lo)[:120]
        if k <= 0:
            return False, "every distance to the line is accepted"
        m = mine(F, next(iter(sq)), board)
        measures.append(hi)
        return m, "" if m else "the square size compared with is that of %s, not of the recorded board" % show(F.canon(next(iter(sq)).a[0]))[:80] if m is False else show(lo)[:120]
    settle(c, [v for v in (either(g, test) for g in gs) if v], "collinear", key, e, "a board is recorded without testing that its corners are not on a line")
    for m in measures:
        distance(c, F, it, e, m, det, ids, board, key)
    if not measures:
        c.und("distance", e, "no comparison with the square size")


def distance(c, F, it, e, r, det, ids, board, key):
    x = uncast(r)
    und = lambda m: c.und("distance", e, m[:200])
    bad = lambda m: c.bad("distance", key, e, m)
    if x.op == "sum" and uncast(x.a[2]).op == "op" and uncast(x.a[2]).a[0] == "/":
        i = uncast(x.a[2])
        x = mk("op", "/", mk("sum", x.a[0], x.a[1], i.a[1], x.a[3]), i.a[2])
    if not (x.op == "op" and x.a[0] == "/" and len(x.a) == 3):
        if x.op == "sum" and uncast(x.a[2]).op != "op":
            return bad("the distances to the line are summed, not averaged")
        if all(a.op == "elem" and a.a[0].op == "out" and a.a[0].a[0] == "cv::fitLine" for a in Norm()(x).atoms()):
            return bad("what is compared with the square size is a parameter of the line, not a distance to it")
        return und(show(x))
    s, n = uncast(x.a[1]), uncast(x.a[2])
    if s.op != "sum":
        return und(show(s))
    L, init, item, guard = s.a
    if isconst(n):
        return bad("the sum of distances is divided by %s" % n.a[0])
    h = sized(n)
    m = uncast(n).a[0] if uncast(n).op == "size" else None
    if not (isconst(init) and init.a[0] == 0):
        return und("initial value")
    item = uncast(item)
    if not (item.op == "call" and str(item.a[0]) in ("fabs", "std::abs", "std::fabs", "abs", "cv::abs")):
        if item.op == "op" and all(y.op == "elem" or y.op == "fld" and y.a[1] in ("x", "y") for y in Norm()(item).atoms()):
            return bad("signed distances to the line are added")
        return und(show(item))
    lines = lineouts(item)
    if len(lines) != 1:
        return und("lines")
    line = next(iter(lines))
    # the point of the sum
    N = Norm()
    l = [N(mk("elem", line, C(i))) for i in range(4)]
    got = N(item.a[1])
    at = [a for a in got.atoms() if not (a.op == "elem" and a.a[0] is line)]
    odd = [a for a in at if not (a.op == "fld" and a.a[1] in ("x", "y"))]
    tops = {a.a[0] for a in at if a not in odd}
    if (odd or tops) and all(any(y is det for y in subterms(a)) and not fields(a, "pts_3d_") for a in odd + list(tops)):
        return bad("the distance to the line is measured in the image and compared with the square size")
    if odd or len(tops) != 1:
        return und("point of the sum: %s" % show((odd or [item])[0]))
    p = next(iter(tops))
    X, Y = N(mk("fld", p, "x")), N(mk("fld", p, "y"))
    want = l[1] * (X - l[2]) - l[0] * (Y - l[3])
    if not (got.eq(want) or (got + want).eq(num(0))):
        return bad("the measure is not the distance of the corner to the fitted line")
    # the point: on the board, one of the detected corners
    if p.op == "point" and len(p.a) == 2 and all(x.op == "fld" and x.a[0].op == "elem" and x.a[0].a[0].op == "fld" and x.a[0].a[0].a[1] == "pts_3d_" for x in p.a):
        ms = [mine(F, x.a[0].a[0], board) for x in p.a]
        if False in ms:
            return bad("the corners tested are not those of the recorded board")
    if p.op == "point" and len(p.a) == 2 and all(x.op == "fld" and x.a[1] in ("x", "y", "z") for x in p.a) and p.a[0].a[0] is p.a[1].a[0]:
        if {x.a[1] for x in p.a} != {"x", "y"}:
            return bad("the distance to the line is not measured in the plane of the board")
        p = p.a[0].a[0]
    if not fields(line.a[2], "pts_3d_") and any(y is det for y in subterms(line.a[2])):
        return bad("the line is fitted to the image points, the distances are measured on the board")
    if p.op == "elem" and p.a[0].op == "fld" and p.a[0].a[1] == "pts_3d_":
        m = mine(F, p.a[0], board)
        if m is False:
            return bad("the corners tested are those of %s, not of the recorded board" % show(F.canon(p.a[0].a[0]))[:80])
        k = p.a[1]
        hs = {y for y in subterms(k) if y in ids}
        if m is None:
            return und(show(p))
        if not hs:
            if k.op in ("i", "k") and k.op == "i":
                return bad("the corners tested are not the detected ones")
            return und(show(k))
    elif any(y is det for y in subterms(p)) or p.op == "elem" and heads(p.a[0]):
        return bad("the distance to the line is measured in the image and compared with the square size")
    else:
        return und(show(p))
    c.ok("distance", e, key)


# ------------------------------------------------------------------ refinement
def refinement(c, F, fn, it, e, gs, det, key):
    calls = [x for x in it.events if x.kind == "call" and x.d.get("f") == SADDLE]
    rec = set(gs)
    conf = lambda g: g.op == "fld" and g.a[1] == "refine_corner_" or g.op == "op" and g.a[0] in ("==", "!=") and any(x.op == "fld" and x.a[1] == "refine_corner_" for x in g.a[1:]) and \
        any(isconst(x) and bool(x.a[0]) == (g.a[0] == "==") for x in g.a[1:])
    if not calls:
        if any(x.kind in ("call", "icall") and ("SubPix" in str(x.d.get("f")) or "ubpix" in str(x.d.get("f"))) for x in it.events):
            c.und("refine", e, "another refinement")
            c.und("same", e, "another refinement")
        else:
            c.bad("refine", key, e, "corners are never refined")
        return
    for s in calls:
        sg = list(flat(s.guards()))
        if not any(conf(g) for g in sg):
            if any(fields(g, "refine_corner_") for g in sg):
                neg = [g for g in sg if fields(g, "refine_corner_")]
                if all((g.op == "!" or g.op == "op" and g.a[0] == "!") and conf(g.a[-1]) for g in neg):
                    c.bad("refine", key, s, "corners are refined exactly when refinement is not configured")
                else:
                    c.und("refine", s, show(neg[0])[:150])
            else:
                c.bad("refine", key, s, "corners are refined although refinement is not configured")
            continue
        extra = [g for g in sg if not conf(g) and g not in rec and not benign_guard(g)]
        if extra:
            g = extra[0]
            if all(y.op != "call" or str(y.a[0]).startswith(("cv::", "std::")) for y in subterms(g)):
                c.bad("refine", key, s, "recorded corners are refined only if %s" % show(g)[:120])
            else:
                c.und("refine", s, show(g)[:150])
            continue
        if s.seq > e.seq and not [x for x in calls if x.seq < e.seq]:
            c.bad("refine", key, s, "the corners are refined after they were recorded")
            continue
        if not any(x.op == "out" and x.a[0] == SADDLE for x in subterms(e.val)):
            c.bad("refine", key, e, "the recorded corners are not the refined ones")
            continue
        c.ok("refine", s, key)
        same(c, F, fn, it, e, s, det, key, conf)


def same(c, F, fn, it, e, s, det, key, conf):
    V = Views(c, fn, it)
    bad = lambda m: c.bad("same", key, e, m)
    und = lambda m: c.und("same", e, m[:200])
    v = e.val
    conds = {x.a[0] for x in subterms(v) if x.op == "ite" and conf(x.a[0])}
    on = subst(v, {g: TRUE for g in conds})
    off = subst(v, {g: C(False) for g in conds})
    refined = {x for x in subterms(on) if x.op == "out" and x.a[0] == SADDLE}
    if len(refined) != 1:
        return und("refinements: %d" % len(refined))
    R = next(iter(refined))
    args = R.a[2:]
    if len(args) < 3:
        return und("arguments")
    h = heads(args[1])
    if h is None:
        return und("refined corners")
    if det not in h or len(h) != 1:
        return bad("the corners refined are not those of the recorded board")
    im = {x for x in subterms(args[0]) if x.op == "call" and x.a[0] == "cv::imread"}
    im2 = {x for y in det.a[2:] if isinstance(y, Term) for x in subterms(y) if x.op == "call" and x.a[0] == "cv::imread"}
    if im and im2 and im != im2:
        return bad("the corners are refined in another image")
    if any(x.op == "out" and x.a[0] == SADDLE for x in subterms(off)):
        return und("unrefined corners")
    for x in it.events:
        if x.kind in ("write", "push") and x.d.get("val") is not None and contains(x.val, R) or x.kind == "write" and x.d.get("val") is not None and \
                any(y.op == "out" and y.a[0] == SADDLE for y in subterms(x.val)):
            for L in x.loops():
                if L.kind == "each" and L.has_break and L.cont is not None and contains_list(L, args[1], x):
                    return bad("corners that follow one that cannot be refined are not replaced")
    # what is written where
    for x in it.events:
        if x.kind != "write" or not isinstance(x.d.get("val"), Term):
            continue
        for gs, y in alternatives(x.val):
            y = uncast(y)
            if y.op == "fld" and y.a[0].op == "elem" and y.a[0].a[0].op == "out" and y.a[0].a[0].a[0] == SADDLE and y.a[1] in ("x", "y"):
                l = x.loc
                if l.op == "fld" and l.a[1] in ("x", "y") and l.a[0].op == "elem":
                    if l.a[0].a[1] is not y.a[0].a[1] and F.known(l.a[0].a[1]) and F.known(y.a[0].a[1]) or \
                            l.a[0].a[1] is not y.a[0].a[1] and any(z.op == "out" for z in subterms(l.a[0].a[1])):
                        return bad("a corner is replaced by the refined corner of another index")
                    if l.a[1] != y.a[1]:
                        return bad("the %s coordinate is replaced by %s of the refined corner" % (l.a[1], y.a[1]))
    # element P
    q = V.at(on)
    if q is None or q.op != "point":
        return und("element of %s" % show(on))
    for i, n in ((0, "x"), (1, "y")):
        alts = list(alternatives(q.a[i]))
        seen = False
        for gs, x in alts:
            x = uncast(x)
            if x.op == "fld" and x.a[0].op == "elem" and x.a[0].a[0] is R:
                if x.a[0].a[1] is not P:
                    return bad("corner i is replaced by the refined corner of another index")
                if x.a[1] != n:
                    return bad("the %s coordinate is replaced by %s of the refined corner" % (n, x.a[1]))
                seen = True
                for g in gs:
                    if uses(g) and not finite(g, R):
                        return und("condition %s" % show(g))
            elif x.op == "fld" and x.a[1] == n:
                for g in gs:
                    pass
            else:
                return und("value %s" % show(x))
        if not seen:
            return bad("the %s coordinate of a refined corner is not used" % n)
    c.ok("same", e, key)


def uses(g):
    return any(x.op == "out" and x.a[0] == SADDLE for x in subterms(g))


def finite(g, R):
    return any(x.op == "call" and str(x.a[0]).split("::")[-1] in ("isinf", "isfinite", "isnan", "isnormal") for x in subterms(g))


def contains_list(L, l, x):
    return True


def alternatives(t, gs=()):
    if t.op == "ite":
        yield from alternatives(t.a[1], gs + (t.a[0],))
        yield from alternatives(t.a[2], gs + (unop("!", t.a[0]),))
    else:
        yield gs, t


# ------------------------------------------------------------------ the refinement itself
INF = ("std::numeric_limits<double>::infinity", "std::numeric_limits<float>::infinity")


def subpixel(c):
    """point idx of the result starts from corner idx of the input and moves to the saddle of the fitted surface"""
    fns = [f for f in c.prog.by_name.get(SADDLE, []) if f.get("body")]
    done = False
    for fn in fns:
        it = c.it(fn, opaque=(), tag="saddle")
        cols = columns(it)
        key = "saddleSubpixelRefinement/%d" % len(fn["params"])
        new = {}
        for e in it.events:
            if e.kind == "write" and e.loc.op == "fld" and e.loc.a[0].op == "new" and e.loc.a[1] in ("x", "y"):
                new[e.loc] = e.val
        steps, starts = {}, {}
        for e in it.events:
            if e.kind != "write" or e.loc.op != "fld" or e.loc.a[1] not in ("x", "y") or e.loc.a[0].op != "elem":
                continue
            l, k, n = e.loc.a[0].a[0], e.loc.a[0].a[1], e.loc.a[1]
            if root(l).op != "arg":
                continue
            v = e.val
            v = new.get(v, v)
            if v.op == "call" and v.a[0] in INF:
                continue
            r = [x for x in subterms(v) if x.op == "elem" and isconst(x.a[1]) and x.a[0].op in ("call", "var", "arg", "lam") and "ptr" in str(x.a[0].a[0])]
            if r:
                steps[n] = (e, v, {x.a[0] for x in r})
            elif len(e.loops()) == 1:
                starts[n] = (e, v, k, l)
        for n, (e, v, k, l) in starts.items():
            v = uncast(v)
            if v.op == "fld" and v.a[0].op == "elem" and root(v).op == "arg":
                if v.a[1] != n or v.a[0].a[1] is not k:
                    c.bad("same", key + " start " + n, e, "the refinement of the %s coordinate of a corner starts from %s" % (n, show(v)))
                    continue
            once = (fn["name"], n)
            c.ok("same", e, "start of the %s coordinate" % n) if v.op == "fld" else c.und("same", e, show(v)[:150])
        if set(steps) == {"x", "y"} and cols is not None:
            done = True
            saddle(c, steps, cols, key)
    if not done:
        c.und("saddle", "McCalib/include/point_refinement.h:1", "the step of the refinement is not recognised")


def columns(it):
    """column -> exponents of x and y in the fit, outer loop over rows"""
    best = {}
    for e in it.events:
        if e.kind != "write" or e.loc.op != "elem" or not isconst(e.loc.a[1]) or len(e.loops()) < 2:
            continue
        ls = [L for L in e.loops() if L.key is not None and L.key.op == "i"]
        if len(ls) < 2:
            continue
        y, x = ls[-2].key, ls[-1].key
        best.setdefault(e.loc.a[0], {})[e.loc.a[1].a[0]] = (e.val, x, y)
    for b, d in best.items():
        if set(d) != set(range(6)):
            continue
        out = {}
        for j, (v, x, y) in d.items():
            X, Y, q = Norm()(x), Norm()(y), Norm()(v)
            for m, t in {(2, 0): X * X, (0, 2): Y * Y, (1, 1): X * Y, (1, 0): X, (0, 1): Y, (0, 0): num(1)}.items():
                if q.eq(t):
                    out[j] = m
        return out if len(out) == 6 and len(set(out.values())) == 6 else {}
    return None


def saddle(c, steps, cols, key):
    e = steps["x"][0]
    if not cols:
        return c.bad("saddle", key + " columns", e, "the surface fitted around a corner is not a full quadric in x and y")
    N = Norm()
    d, bases = {}, set()
    for n in "xy":
        ev, v, b = steps[n]
        bases |= b
        q = N(v)
        old = [a for a in q.atoms() if a.op == "lam" and a.a[1] is ev.loc or a is ev.loc]
        if len(old) != 1:
            return c.und("saddle", ev, show(v)[:150])
        d[n] = q - N(old[0])
    if len(bases) != 1:
        return c.und("saddle", e, "several fits")
    r = [N(mk("elem", next(iter(bases)), C(j))) for j in range(6)]

    def power(q, n):
        x = num(1)
        for _ in range(n):
            x = x * q
        return x
    gx, gy = num(0), num(0)
    for j, (a, b) in cols.items():
        if a:
            gx = gx + num(a) * r[j] * power(d["x"], a - 1) * power(d["y"], b)
        if b:
            gy = gy + num(b) * r[j] * power(d["x"], a) * power(d["y"], b - 1)
    if gx.eq(num(0)) and gy.eq(num(0)):
        return c.ok("saddle", e, "step to the point where the gradient of the fitted surface vanishes")
    if all(a.op == "elem" for n in "xy" for a in d[n].atoms()):
        return c.bad("saddle", key, e, "the refinement step does not lead to the saddle point of the fitted surface")
    c.und("saddle", e, "step")
