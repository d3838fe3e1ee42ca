"""C23: the point indices of objects and boards are inverse to each other."""
from sa.core import *
from sa.views import *
from sa.effects import Effects
from sa.engine import subst
from sa.poly import Norm
from checks import C11
from checks.C28 import workflows
from checks.C20 import apply, frame
from checks.C01 import tables

OPQ = tuple(AVG) + GRAPH
TO, BACK, PTS = "pts_board_2_obj_", "pts_obj_2_board_", "pts_3d_"
OBJ = "McCalib::Object3D"
LW = dict(tag="lw", hooks={"localwrites": True})


def run(c):
    c.rule("together", "every point of an object is entered into the point list and into both index maps by the same step")
    c.rule("inverse", "the entry of one index map is the key of the other")
    c.rule("position", "the position entered is the one the point takes in the list of the object")
    c.rule("cover", "every point of every board inserted into an object is entered")
    c.rule("coordinates", "a point of an object is the point of the board of the same index, moved by the pose stored for that board")
    c.rule("lookup", "the index map is asked for a point of the board whose number is in the key")
    c.rule("only", "nothing else changes the maps, or adds and removes points of an object")
    c.rule("count", "the number of points of an object grows by that of each board inserted")
    c.rule("follows", "after board poses changed, the points of the object are recomputed before anything reads them")
    c.rule("all", "the recomputation visits every object")
    c.rule("same", "a recomputed point replaces the old one")
    seen = set()
    once = lambda *k: k not in seen and not seen.add(k)
    for fn in c.roots():
        if fn["name"].split("::")[-1] in ("main", "runCalibrationWorkflow"):
            continue
        it = c.it(fn, opaque=OPQ, **LW)
        V = Views(c, fn, it)
        objs = []
        for e in it.events:
            if e.kind in ("write", "push", "mapins"):
                b = base(e)
                if b is not None and b.op == "new" and b.a[0] == OBJ and b not in objs:
                    objs.append(b)
        for o in objs:
            creation(c, V, o)
        refresh(c, V, once)
        lookups(c, V, once)
        only(c, V, once)
    c.ok("only", "all functions", "no other change")
    E = Effects(c.prog)
    tab = [x for x in C11.FOLLOWS if x[0] == "Object3D.pts_3d_"]
    for wf in workflows(c, E):
        C11.follows(c, E.trace(wf), tab)
    C11.coverage(c, E, tab)
    for r, n in (("together", 2), ("inverse", 2), ("position", 2), ("cover", 2), ("coordinates", 3), ("lookup", 2), ("count", 2), ("follows", 1)):
        c.need(r, n)
    return "other", ("Symbolic evaluation of every function that builds or changes an object: the steps that enter a point are compared with each other, "
                     "the position counter by induction over the loops, the coordinates with the stored board pose; effect trace of the calibration "
                     "program for the recomputation.")


def name(e):
    return e.fn["name"].split("McCalib::")[-1] if isinstance(e.fn, dict) else "?"


def base(e):
    """object whose point list or index map an event changes"""
    l = e.d.get("loc") if e.kind == "write" else e.d.get("cont")
    while isinstance(l, Term) and l.op in ("elem", "fld"):
        if l.op == "fld" and l.a[1] in (TO, BACK, PTS, "boards_", "nb_pts_"):
            return l.a[0]
        l = l.a[0]
    return None


def of(it, o, f, kinds):
    """events that change entries of a field of an object"""
    F = fld(o, f)
    for e in it.events:
        if e.kind not in kinds:
            continue
        if e.kind == "write":
            if e.loc.op == "elem" and e.loc.a[0] is F:
                yield e, e.loc.a[1], e.val
        elif e.cont is F:
            yield e, e.d.get("key"), e.d.get("val")


def pairof(t):
    return (t.a[0], t.a[1]) if isinstance(t, Term) and t.op == "mkpair" and len(t.a) == 2 else None


def same(V, a, b):
    """equal / definitely different / unknown"""
    if a is b:
        return True
    n = Norm()(a).eq(Norm()(b)) if numeric(a) and numeric(b) else None
    if n:
        return True
    V.F.eqs[:] = []
    if V.F.equal(a, b):
        return True
    x, y = V.F.canon(a), V.F.canon(b)
    if x is y:
        return True
    if plain(x) and plain(y):
        return False
    return None


def numeric(t):
    return t.op in ("op", "k", "i", "cast") or isconst(t)


def plain(t):
    """made of loop indices, numbers and fields of entities only"""
    if t.op in ("k", "i", "cal", "this", "arg", "new") or isconst(t):
        return True
    if t.op in ("op", "elem", "fld", "cast", "mkpair", "size"):
        return all(plain(x) for x in t.a if isinstance(x, Term))
    if t.op in ("call", "deref", "begin", "end", "var"):
        return all(plain(x) for x in t.a if isinstance(x, Term))
    return False


def creation(c, V, o):
    it = V.it
    k = "objects of %s" % V.F.fn["name"].split("::")[-1] if hasattr(V.F, "fn") else "objects of %s" % it.entry.fn["name"].split("::")[-1]
    p3 = list(of(it, o, PTS, ("push",)))
    pb = list(of(it, o, BACK, ("push",)))
    wm = list(of(it, o, TO, ("write", "mapins")))
    ins = list(of(it, o, "boards_", ("write", "mapins")))
    if not ins:
        return
    where = ins[0][0]
    if not p3 or not pb or not wm:
        miss = [f for f, l in ((PTS, p3), (BACK, pb), (TO, wm)) if not l]
        odd = any(e.kind in ("write", "touch", "call", "icall") and base(e) is o and e.d.get("loc") is fld(o, f) and e.val is not EMPTY
                  for e in it.events if e.kind == "write" for f in miss)
        if odd or len(miss) == 3:
            c.und("together", where, k)
        else:
            c.bad("together", k, where, "boards are inserted, but nothing is entered into %s" % ", ".join(miss))
        return
    if len(p3) != 1 or len(pb) != 1 or len(wm) != 1:
        c.und("together", where, "%s: several statements enter points" % k)
        return
    (e3, _, x3), (eb, _, vb), (em, key, n) = p3[0], pb[0], wm[0]
    evs = (e3, eb, em)
    L = [e.loops() for e in evs]
    par = [[l.uid for l in x[:-1]] for x in L]
    if not (par[0] == par[1] == par[2]) or not all(L):
        if all(L) and len({len(x) for x in L}) == 1:
            c.bad("together", k, e3, "the point list and the index maps are filled in different loops")
        else:
            c.und("together", e3, k)
        return
    gs = [set(e.guards()) for e in evs]
    if not (gs[0] == gs[1] == gs[2]):
        g = list((gs[0] | gs[1] | gs[2]) - (gs[0] & gs[1] & gs[2]))[0]
        c.bad("together", k, e3, "a point is entered into only some of the point list and the index maps when %s" % show(g)[:160])
        return
    # parallel loops: rename the index
    ren = {}
    for x in L[1:]:
        if x[-1].uid != L[0][-1].uid:
            if not parallel(V, x[-1], L[0][-1]):
                c.und("together", e3, k)
                return
            ren[x[-1].key] = L[0][-1].key
    c.ok("together", e3, k)
    if ren:
        vb, key = subst(vb, ren), subst(key, ren)
    # ---- inverse
    a, b = pairof(key), pairof(vb)
    if a is None or b is None:
        c.und("inverse", em, k)
        return
    r = [same(V, x, y) for x, y in zip(a, b)]
    c.judge(False if False in r else True if r == [True, True] else None, "inverse", k, em, "%s: %s" % (k, show(key)[:120]),
            "the map from object points is given %s, the map to object points %s" % (show(vb)[:120], show(key)[:120]))
    position(c, V, o, k, L, e3, em, eb, n, ren)
    # ---- coordinates
    x3 = resolve(x3)
    x = V.rigid(x3)
    if x is None or x[0] == "bad":
        if x3.op == "elem" and x3.a[0].op == "fld" and x3.a[0].a[1] == PTS:
            c.bad("coordinates", k, e3, "the board point is entered without moving it by the pose of the board")
        else:
            c.und("coordinates", e3, k)
    else:
        coords(c, V, o, k, e3, x, a, ins)
    cover(c, V, o, k, e3, L[0], x3, ins)
    count(c, V, o, k, ins)


def resolve(x):
    """an entry, at a given place, of a list that was filled entry by entry"""
    if x.op == "elem" and x.a[0].op == "collect":
        L, init, item, g = x.a[0].a
        if init is EMPTY and g is TRUE:
            return subst(item, {L.a[1]: x.a[1]})
    return x


def parallel(V, l, m):
    """two loops visit the same positions"""
    def n(x):
        if x.kind == "each":
            return length(V, x.contval if isinstance(x.contval, Term) else x.cont)
        if x.kind == "range" and isconst(x.start) and x.start.a[0] == 0 and x.step == 1 and not x.has_break and isinstance(x.bound, Term):
            return x.bound
        return None
    a, b = n(l), n(m)
    return a is not None and b is not None and (a is b or V.F.equal(a, b))


def length(V, t):
    """number of entries of a list, seen through element-wise copies"""
    for _ in range(5):
        el = elementwise(V.it, t)
        if el is None:
            break
        item, idx, g, L = el
        if g is not TRUE or L is None or L.has_break:
            return None
        if L.kind == "each":
            t = L.contval if isinstance(L.contval, Term) and L.contval is not t else L.cont
            continue
        if L.kind == "range" and isconst(L.start) and L.start.a[0] == 0 and L.step == 1:
            return L.bound
        return None
    return mk("size", t)


# ------------------------------------------------------------------- positions
def position(c, V, o, k, L, e3, em, eb, n, ren):
    """the number entered is the number of points entered before"""
    born = [e for e in V.it.events if e.kind == "write" and e.loc is fld(o, PTS)]
    depth = len(born[0].loops()) if born else None
    if depth is None:
        c.und("position", em, k)
        return

    def size(ls):
        return [f for f in (PTS, BACK) if contains(ls, fld(o, f)) or ls is fld(o, f)]
    r, where, msg = counted(V, em, n, L[2][-1], depth, size)
    c.judge(r, "position", k, where, msg if r else k, msg)


def counted(V, em, n, inner, depth, size, what="point"):
    """is n, in the innermost loop of event em, the number of times the loop body ran since loop number depth was entered?"""
    it = V.it
    n = strip(n)
    terms = linear(n)
    if terms is None:
        return None, em, ""
    atoms, const = terms
    counters = [a for a in atoms if a.op == "lam"]
    sizes = [a for a in atoms if a.op == "size"]
    keys = [a for a in atoms if a is inner.key]
    if any(v != 1 for v in atoms.values()):
        return False, em, "the position used, %s, is not the number of %ss before" % (show(n)[:120], what)
    if len(atoms) == 1 and sizes:
        # size of one of the lists at the moment of the entry
        own = size(sizes[0].a[0])
        if not own:
            return None, em, ""
        if const == 0:
            return True, em, "size of %s" % own[0]
        return False, em, "the position used is %s%+d" % (own[0] + ".size()", const)
    if not atoms and not keys:
        return False, em, "every %s is put at position %d" % (what, const)
    if len(atoms) == 1 and keys:
        if len(em.loops()) - 1 > depth:
            return False, em, "the position used is the number of the %s in the innermost loop, whatever came before" % what
        L = inner
        if const == 0 and (L.kind == "range" and isconst(L.start) and L.start.a[0] == 0 and L.step == 1 or L.kind == "each" and L.key.op == "i"):
            return True, em, "index of the loop"
        return None, em, ""
    if len(counters) != 1 or len(atoms) > 2 or len(atoms) == 2 and not keys:
        return None, em, ""
    lam = counters[0]
    loc = lam.a[1]
    if loc.op == "glob":
        return False, em, "the positions are not counted from 0 for every list"
    lws = [e for e in it.events if e.kind in ("lwrite", "write") and e.loc is loc]
    init = [e for e in lws if not contains(e.val, loc) and not any(x.op == "lam" and x.a[1] is loc for x in subterms(e.val))]
    upd = [e for e in lws if e not in init]
    if not init:
        return None, em, ""
    # starts: at 0, once per list
    r, msg = True, ""
    for e in init:
        d = len(e.loops())
        if not (isconst(e.val) and e.val.a[0] == 0):
            if isconst(e.val):
                r, msg = False, "the positions start at %s" % show(e.val)
            else:
                r = r and None
        elif d < depth:
            r, msg = False, "the positions are not counted from 0 for every list"
        elif d > depth:
            r, msg = False, "the positions start at 0 again while there are %ss in the list" % what
    if r is not True:
        return r, init[0], msg
    if not upd:
        return False, em, "the position is not counted up"
    if len(upd) != 1:
        return None, em, ""
    u = upd[0]
    t = linear(u.val)
    ul = [l.uid for l in u.loops()]
    il = [l.uid for l in em.loops()]
    if t is None:
        return None, u, ""
    at, cst = t
    at = dict(at)
    heads = [a for a in at if a.op == "lam" and a.a[1] is loc]
    for a in heads:
        del at[a]
    if len(atoms) == 1:
        # counter: + 1 every time
        if const != 0:
            return False, em, "the position used is %d off the number of %ss before" % (const, what)
        if ul != il and len(ul) < len(il):
            if ul == il[:-1] and len(at) == 1 and cst == 0:
                return False, em, "all %ss of one pass are put at one position" % what
            return False, u, "the position is not counted up with every %s" % what
        if ul == il and not at:
            extra = set(u.guards()) ^ set(em.guards())
            if extra:
                return False, u, "%ss and positions are counted under different conditions: %s" % (what, show(list(extra)[0])[:120])
            return cst == 1, u, "counted from 0 with every %s" % what if cst == 1 else "the position is counted up by %d" % cst
        return None, u, ""
    # offset + index in the innermost loop
    if const != 0:
        return False, em, "the position used is %d off the number of %ss before" % (const, what)
    if ul == il[:-1] and len(at) == 1 and cst == 0:
        s = list(at)[0]
        want = length(V, inner.contval if inner.kind == "each" and isinstance(inner.contval, Term) else inner.cont) if inner.kind == "each" else inner.bound
        have = length(V, s.a[0]) if s.op == "size" else s
        ok = want is not None and have is not None and (want is have or V.F.equal(want, have))
        if not ok and want is not None and len(em.loops()) > 1:
            # the lists of one pass differ in length, the step does not
            key = em.loops()[-2].key
            if contains(want, key) and not contains(s, key) and (s.op == "size" or isconst(s)) and not any(x.op in ("lam", "call", "ite") for x in subterms(s)):
                return False, u, "the offset is counted up by %s for every list of %ss, whatever the length of that list" % (show(s)[:100], what)
        return (True if ok else None), u, "offset plus index"
    if ul == il:
        return False, em, "the offset grows with every %s, and the index as well" % what
    return None, u, ""


def linear(t, s=1):
    """({atom: factor}, constant) of a sum"""
    at, cst = {}, 0

    def go(t, s):
        nonlocal cst
        if isconst(t):
            if not isinstance(t.a[0], int):
                return False
            cst += s * t.a[0]
            return True
        if t.op == "cast" or t.op == "trunc":
            return go(t.a[-1] if isinstance(t.a[-1], Term) else t.a[0], s)
        if t.op == "op" and t.a[0] == "+" and len(t.a) == 3:
            return go(t.a[1], s) and go(t.a[2], s)
        if t.op == "op" and t.a[0] == "-" and len(t.a) == 3:
            return go(t.a[1], s) and go(t.a[2], -s)
        at[t] = at.get(t, 0) + s
        return True
    return (at, cst) if go(t, s) else None


# ---------------------------------------------------------------- coordinates
def boardpoint(V, p):
    """(board, index) of a point of a board"""
    m = V.model3(strip(p))
    if m is not None:
        return m
    p = strip(p)
    if p.op == "elem" and p.a[0].op == "fld" and p.a[0].a[1] == PTS:
        return p.a[0].a[0], p.a[1]
    return None


def coords(c, V, o, k, e, x, key, ins):
    R, t, p = x
    F = V.F
    F.eqs[:] = []
    F.assume(e.guards())
    bp = boardpoint(V, p)
    if bp is None:
        c.und("coordinates", e, "point %s" % show(p)[:160])
        return
    board, idx = bp
    r = same(V, idx, key[1])
    if r is False:
        c.bad("coordinates", k, e, "point %s of the board is entered as its point %s" % (show(idx)[:80], show(key[1])[:80]))
        return
    s = same(V, mk("fld", board, "board_id_"), key[0])
    if s is False:
        c.bad("coordinates", k, e, "a point of board %s is entered as point of board %s" % (show(F.canon(mk("fld", board, "board_id_")))[:100], show(key[0])[:100]))
        return
    # the pose: the one stored for the board
    ok = lambda: c.judge(True if r and s else None, "coordinates", k, e, "%s: board point moved by the stored pose" % k, "")
    st = stored(V, o, key[0], e)
    rs = ts = None
    if st is not None and st.op == "list" and len(st.a) == 6:
        rs, ts = comps(st.a[:3]), comps(st.a[3:])
    T = vec3(t)
    if rs is not None and ts is not None:
        ro = R is mk("rod", rs[0]) and rs[1] == 0 or rs[0].op == "rod" and R is rs[0].a[0] and rs[1] == 0
        to = T == ts
        if ro and to:
            return ok()
        other = (not ro and foreign(V, R, o, key[0])) or (not to and foreign(V, T[0], o, key[0]))
        if other:
            c.bad("coordinates", k, e, "the points are moved by %s, not by the pose stored for the board" % other)
            return
    elif st is None and ins is not None:
        ws = [w for w in V.it.events if w.kind in ("write", "mapins", "call", "icall") and o in [root(x) for x in (w.d.get("loc"), w.d.get("cont")) if isinstance(x, Term)]
              and any("relative_board_pose_" in show(x) for x in (w.d.get("loc"), w.d.get("cont")) if isinstance(x, Term)) and w.d.get("val") is not EMPTY]
        if not ws:
            c.bad("coordinates", k, e, "no pose is stored for the board whose points are entered")
            return
    if ins is None:
        # an object that exists already: its own pose of this board, read now
        loc = fld(o, "relative_board_pose_")
        b1 = R.a[0] if R.op == "rod" else None
        b2 = T[0]
        if b1 is not None and b1.op == b2.op == "elem" and b1.a[0] is loc and b2.a[0] is loc:
            q = [same(V, x.a[1], key[0]) for x in (b1, b2)]
            if False in q:
                x = (b1, b2)[q.index(False)]
                c.bad("coordinates", k, e, "the points of board %s are moved by the pose of board %s" % (show(key[0])[:80], show(x.a[1])[:80]))
                return
            if q == [True, True] and T[1] == 3:
                return ok()
    try:
        f = apply(V, R, t, F.ptsframe(mk("elem", mk("fld", board, PTS), idx)))
        want = F.slot(mk("elem", fld(o, "relative_board_pose_"), key[0]))
        if f is not None and want is not None and F.same(f, want[0]) is False:
            raise Mismatch("the points are moved into the frame %s, the pose stored leads to %s" % (F.sh(f) if isinstance(f, tuple) else f, F.sh(want[0])))
    except Mismatch as x:
        c.bad("coordinates", k, e, str(x))
        return
    except Exception:
        pass
    c.und("coordinates", e, "pose %s" % show(R)[:160])


def foreign(V, R, o, key):
    """the pose is read from another object, of another board, or before it is stored"""
    for x in subterms(R):
        if x.op == "elem" and x.a[0].op == "fld" and x.a[0].a[1] == "relative_board_pose_":
            if x is R or R.op == "rod" and x is R.a[0]:
                if x.a[0].a[0] is not o:
                    return show(x)[:120]
                if same(V, x.a[1], key) is False:
                    return show(x)[:120]
        if x.op == "elem" and x.a[0] is EMPTY and R.op == "rod" and x is R.a[0]:
            return "a pose that is not stored yet"
    return None


def stored(V, o, key, e):
    """value of the pose of a board in a new object when the step is complete"""
    v = None
    for w in V.it.events:
        if w.kind == "write" and w.loc.op == "elem" and w.loc.a[0] is fld(o, "relative_board_pose_"):
            if same(V, w.loc.a[1], key) and [l.uid for l in w.loops()] == [l.uid for l in e.loops()][:len(w.loops())]:
                v = w.val
    return v


def vec3(t):
    """(vector, first component) when the components are listed"""
    if t.op == "v3":
        b = comps(t.a) if len(t.a) == 3 else (t.a[0], 0) if len(t.a) == 1 else None
        return b if b is not None else (t, 0)
    return (t, 0)


def comps(xs):
    """(vector, n): these are its components n, n + 1, n + 2"""
    b, n = set(), None
    for i, x in enumerate(xs):
        if x.op != "elem":
            return None
        j = x.a[1]
        if j.op == "ij":
            j = [q for q in j.a if not (isconst(q) and q.a[0] == 0)]
            j = j[0] if j else C(0)
        if not isconst(j):
            return None
        if n is None:
            n = j.a[0]
        if j.a[0] != n + i:
            return None
        b.add(x.a[0])
    return (b.pop(), n) if len(b) == 1 else None


# ------------------------------------------------------------------- coverage
def cover(c, V, o, k, e, loops, x3, ins):
    L = loops[-1]
    r = loop_full(L)
    if L.kind == "range" and isinstance(L.bound, Term):
        m = V.rigid(x3)
        bp = boardpoint(V, m[2]) if m is not None and m[0] != "bad" else None
        if bp is not None and r is not False:
            want = (mk("size", mk("fld", bp[0], PTS)), mk("fld", bp[0], "nb_pts_"))
            d = [x for x in want if x is L.bound or V.F.equal(x, L.bound) or length(V, L.bound.a[0]) is x] if L.bound.op == "size" or True else []
            r = True if d and isconst(L.start) and L.start.a[0] == 0 and not L.has_break else None
    elif L.kind == "each" and r:
        el = elementwise(V.it, L.contval) if isinstance(L.contval, Term) else None
        if el is not None and el[3] is not None:
            if el[2] is not TRUE or loop_full(el[3]) is False:
                r = False
            elif loop_full(el[3]) is None:
                r = None
    if L.has_break:
        r = False
    if r is not True:
        c.judge(r, "cover", k, e, k, "points of a board are left out")
        return
    # boards: all that are inserted
    (ei, kb, b) = ins[0]
    if len(ins) != 1:
        c.und("cover", ei, k)
        return
    pl = [l.uid for l in loops[:-1]]
    il = [l.uid for l in ei.loops()]
    gi, ge = set(ei.guards()), set(e.guards())
    if pl != il:
        if len(pl) == len(il) and pl[:-1] == il[:-1] and pl:
            l1, l2 = loops[-2], ei.loops()[-1]
            c.judge(True if parallel(V, l1, l2) else None, "cover", k, e, k, "")
        else:
            c.und("cover", e, k)
        return
    if gi != ge:
        x = list(gi ^ ge)
        if all(benign_guard(g) for g in x):
            c.und("cover", e, show(x[0])[:160])
        else:
            c.bad("cover", k, e, "boards are inserted and their points entered under different conditions: %s" % show(x[0])[:140])
        return
    bad = None
    for l in loops[:-1]:
        if loop_full(l) is False or l.has_break:
            bad = "the loop over %s leaves entries out" % show(l.cont if l.cont is not None else l.bound)[:100]
    for g in filters(e):
        if any(x.op == "call" and "find" in str(x.a[0]) for x in subterms(g)):
            continue
        ks = {l.key for l in loops}
        if any(x in ks for x in subterms(g)) and not any(x.op == "isempty" for x in subterms(g)):
            bad = "boards are left out unless %s" % show(g)[:140]
    c.judge(bad is None, "cover", k, e, "%s: all points of all boards" % k, bad)


def count(c, V, o, k, ins):
    it = V.it
    (ei, kb, b) = ins[0]
    ws = [e for e in it.events if e.kind == "write" and e.loc is fld(o, "nb_pts_")]
    gs = [e for e in ws if not isconst(e.val)]
    if not gs:
        c.bad("count", k, ei, "the number of points of the object is never counted")
        return
    for e in gs:
        t = linear(e.val)
        if t is None:
            c.und("count", e, show(e.val)[:160])
            continue
        at, cst = dict(t[0]), t[1]
        heads = [a for a in at if a.op == "lam" and a.a[1] is e.loc or a is e.loc]
        for a in heads:
            del at[a]
        if cst == 0 and len(heads) == 1 and len(at) == 1:
            x = list(at)[0]
            if x.op == "fld" and x.a[1] == "nb_pts_" and same(V, mk("fld", x.a[0], "board_id_"), kb) or \
                    x.op == "size" and x.a[0].op == "fld" and x.a[0].a[1] == PTS:
                c.ok("count", e, k)
                continue
        if len(heads) != 1 or cst or not at:
            c.bad("count", k, e, "the number of points becomes %s when a board is inserted" % show(e.val)[:140])
        else:
            c.und("count", e, show(e.val)[:160])


# -------------------------------------------------------------------- refresh
def refresh(c, V, once):
    it = V.it
    for e in it.events:
        if e.kind != "write" or e.loc.op != "elem" or e.loc.a[0].op != "fld" or e.loc.a[0].a[1] != PTS:
            continue
        o = e.loc.a[0].a[0]
        if V.ownertype(o) != "Object3D" if hasattr(V, "ownertype") else not isobj(V, o):
            continue
        n = strip(e.loc.a[1])
        k = "refresh in %s" % name(e)
        if not once(c.w(e)):
            continue
        if n.op != "elem" or n.a[0].op != "fld" or n.a[0].a[1] != TO:
            r = False if n.op in ("k", "i") and n.op else None
            c.judge(r, "coordinates", k, e, k, "the point of the object is not looked up in the index map, but taken at %s" % show(n)[:100])
            continue
        if n.a[0].a[0] is not o:
            c.judge(False if plain(n.a[0].a[0]) and plain(o) else None, "coordinates", k, e, k,
                    "the position is that of a point of another object: %s" % show(n)[:140])
            continue
        key = pairof(n.a[1])
        val = resolve(e.val)
        x = V.rigid(val)
        if key is not None and x is None and boardpoint(V, val) is not None:
            c.bad("coordinates", k, e, "the board point is entered without moving it by the pose of the board")
            continue
        if key is None or x is None or x[0] == "bad":
            c.und("coordinates", e, k)
            continue
        coords(c, V, o, k, e, x, key, None)
        L = e.loops()
        if L:
            r = loop_full(L[-1])
            if r is False:
                c.bad("coordinates", k + " loop", e, "points of a board are left out")


def isobj(V, o):
    F = V.F
    if o.op == "this":
        fn = V.it.entry.fn
        return fn.get("cls") == OBJ
    if o.op == "elem" and o.a[0].op == "fld" and o.a[0].a[1] == "object_3d_":
        return True
    if o.op == "fld" and o.a[1] == "object_3d_":
        return True
    return o.op == "new" and o.a[0] == OBJ


# --------------------------------------------------------------------- lookup
def lookups(c, V, once):
    for e in V.it.events:
        for f in ("loc", "val", "key"):
            t = e.d.get(f)
            if not isinstance(t, Term):
                continue
            for x in subterms(t):
                if x.op == "elem" and x.a[0].op == "fld" and x.a[0].a[1] == TO:
                    lookup(c, V, e, x, once)


def lookup(c, V, e, x, once):
    key = pairof(x.a[1])
    if key is None:
        return
    F = V.F
    F.eqs[:] = []
    F.assume(e.guards())
    b, i = key
    k = "lookup in %s" % name(e)
    idf = V.idof(i)
    r = None
    if idf is not None:
        obs, q, kind = idf
        if kind != "charuco_id_":
            r = False
            msg = "the index of an object point is used as index of a board point"
        else:
            want = F.canon(mk("fld", obs, "board_id_"))
            have = F.canon(b)
            r = True if want is have or F.equal(want, have) else False if F.known(want) and F.known(have) else None
            msg = "corner %s is looked up as corner of board %s" % (show(i)[:80], show(b)[:80])
    elif i.op in ("k", "i"):
        # position in the list of points of a board
        L = [l for l in e.loops() if l.key is i]
        if L:
            n = length(V, L[0].contval if isinstance(L[0].contval, Term) else L[0].cont) if L[0].kind == "each" else L[0].bound
            m = None
            if isinstance(n, Term) and n.op == "size" and n.a[0].op == "fld" and n.a[0].a[1] == PTS:
                m = n.a[0].a[0]
            elif isinstance(n, Term) and n.op == "size" and n.a[0].op == "fld" and n.a[0].a[1] in ("pts_2d_", "charuco_id_", "pts_id_"):
                r, msg = False, "the position in the list of detected corners is used as the number of the corner"
            elif isinstance(n, Term) and n.op == "fld" and n.a[1] == "nb_pts_":
                m = n.a[0]
            if m is not None and not isobj(V, m):
                r = same(V, mk("fld", m, "board_id_"), b)
                msg = "the points of board %s are looked up as points of board %s" % (show(m)[:80], show(b)[:80])
    if isconst(b) or b.op == "fld" and b.a[1] in ("charuco_id_", "pts_id_"):
        r, msg = False, "the board number of the key is %s" % show(b)[:80]
    # in range of another kind: swapped
    j = V.idof(b)
    if j is not None:
        r, msg = False, "a point index is used as the board number of the key"
    if once(c.w(e), show(x), r):
        c.judge(r, "lookup", k, e, "%s: %s" % (k, show(x.a[1])[:100]), msg if r is False else "")


def only(c, V, once):
    for e in V.it.events:
        if e.kind not in ("push", "erase", "setins", "mapins", "write"):
            continue
        l = e.d.get("loc") if e.kind == "write" else e.d.get("cont")
        if not isinstance(l, Term):
            continue
        f = l
        if e.kind == "write" and l.op == "elem":
            f = l.a[0]
            if f.op == "fld" and f.a[1] == PTS:
                continue                    # refresh
        if f.op != "fld" or f.a[1] not in (TO, BACK, PTS) or not isobj(V, f.a[0]) or f.a[0].op == "new" and e.kind != "erase" or e.fn.get("ctor"):
            continue
        if once(c.w(e), "only"):
            c.bad("only", "%s in %s" % (f.a[1], name(e)), e, "%s of an existing object is changed" % f.a[1])
