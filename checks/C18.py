"""C18: boards have disjoint markers and their own dimensions.

The configuration is a finite set of keys, each list of per-board settings being given or left out.  Every combination is one case;
in it, the value of each expression the constructors compute is reduced to the configuration entries it came from.
"""
from itertools import product

from sa.core import *
from sa.poly import Norm

LW = dict(tag="lw", hooks={"localwrites": True})
CREATE = "cv::aruco::CharucoBoard::create"
CTOR = "McCalib::Calibration::Calibration"
NX, NY, SQ, RX, RY, BI = ("number_x_square", "number_y_square", "square_size", "resolution_x", "resolution_y", "boards_index")
LISTS = {k + "_per_board" for k in (NX, NY, SQ, RX, RY)} | {BI}
ENV = {"exists", "has_filename", "extension", "argc"}
NB = mk("cfg", "number_board")


def run(c):
    c.rule("own", "a board is built from the settings given for it, and from the common ones exactly when none are given per board")
    c.rule("count", "as many boards are built as the configuration asks for, and enough for every index it lists")
    c.rule("index", "board number b is the pattern listed for b, kept under its own number")
    c.rule("markers", "the marker numbers of a board start where those of the boards before it end, and all of them are moved")
    c.rule("dictionary", "the generator and the calibrator take the markers from the same dictionary")
    c.rule("points", "the number of corners and their coordinates are those of the board's own squares")
    c.rule("images", "the image of a board is drawn from that board at the resolution given for it, in board order")
    dicts = []
    for fn in c.roots():
        short = fn["name"].split("::")[-1]
        if short == "runCalibrationWorkflow" or short == "main" and "create_charuco" not in fn["file"]:
            continue
        if short not in ("Calibration", "main"):
            continue
        it = c.it(fn, **LW)
        made = [e for e in it.events if e.kind == "call" and e.d["f"] == CREATE]
        key = "generator" if short == "main" else "calibrator"
        if not made:
            c.und("own", fn, "%s builds no boards here" % key)
        gen = short == "main"
        cases = list(Case.all(it, (NX, NY, RX, RY) if gen else (NX, NY, SQ, BI)))
        for e in made:
            build(c, it, cases, e, key, gen)
            markers(c, it, e, key)
            dicts.append((key, Case(it, {}).simp(e.d["args"][4]) if len(e.d["args"]) > 4 else None, e))
        if gen:
            draw(c, it, cases, key)
        else:
            boards(c, it, cases, key)
    known = [(k, d, e) for k, d, e in dicts if d is not None and all(isconst(x) for x in d.a[1:] if isinstance(x, Term)) and d.op == "call"]
    for k, d, e in dicts:
        if (k, d, e) not in known:
            c.und("dictionary", e, "dictionary of the %s: %s" % (k, show(d)[:80] if d is not None else "?"))
    for k, d, e in known:
        if d is known[0][1]:
            c.ok("dictionary", e, show(d)[:80])
        else:
            c.bad("dictionary", k, e, "the %s uses %s, the %s %s" % (k, show(d)[:80], known[0][0], show(known[0][1])[:80]))
    c.need("own", 8)
    c.need("markers", 2)
    c.need("index", 2)
    c.need("points", 2)
    return "other", "board patterns, geometry and images against the configuration"


# ------------------------------------------------------------------ configurations
class Case:
    """one combination of per-board lists given (False: left out)"""

    def __init__(self, it, given):
        self.it, self.given, self.memo = it, given, {}
        self.iota = iotas(it)

    @staticmethod
    def all(it, keys):
        ks = [k if k == BI else k + "_per_board" for k in keys]
        for v in product((False, True), repeat=len(ks)):
            yield Case(it, dict(zip(ks, v)))

    def name(self):
        g = [k for k, v in sorted(self.given.items()) if v]
        return "with " + ", ".join(g) if g else "with common settings only"

    def simp(self, t):
        if isinstance(t, tuple):
            return tuple(self.simp(x) for x in t)
        if not isinstance(t, Term):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.step(t)
        return r

    def step(self, t):
        if t.op == "out" and str(t.a[0]).endswith("operator>>") and t.a[1] == 1:
            k = t.a[2]
            if k.op == "elem" and k.a[0].op == "obj" and isconst(k.a[1]):
                k = k.a[1].a[0]
                if k in LISTS and self.given.get(k) is False:
                    return EMPTY
                return mk("cfg", k)
        if t.op == "isempty":
            v = self.simp(t.a[0])
            return self.empty(v)
        if t.op == "size":
            v = self.simp(t.a[0])
            if self.empty(v) is TRUE:
                return C(0)
            if v.op == "vec":
                return v.a[0]
            return mk("size", v)
        if t.op == "ite":
            g = self.simp(t.a[0])
            if g is TRUE:
                return self.simp(t.a[1])
            if g is FALSE:
                return self.simp(t.a[2])
        if t.op == "elem":
            b, k = self.simp(t.a[0]), self.simp(t.a[1])
            if b.op == "vec":
                if len(b.a) > 1:
                    return b.a[1]
                if self.iota is not None:
                    return binop("+", k, C(self.iota)) if self.iota else k
            if b.op == "elem" or b.op == "cfg":
                return mk("elem", b, k)
            return elem(b, k) if not (b is t.a[0] and k is t.a[1]) else t
        if t.op == "last" and any(e.kind == "call" and e.d["f"] in ("std::sort", "std::stable_sort") and
                                  any(isinstance(a, Term) and t.a[0] in set(subterms(a)) for a in e.d["args"]) for e in self.it.events):
            return mk("last", mk("sorted", t.a[0]))
        if t.op == "deref" and t.a[0].op == "call" and t.a[0].a[0] == "std::max_element" and len(t.a[0].a) == 3:
            b, e = t.a[0].a[1:]
            if b.op == "begin" and e.op == "end" and b.a[0] is e.a[0]:
                v = self.value(b.a[0])
                if v is not None:
                    return mk("maxof", self.simp(v))
        if t.op == "cast" and len(t.a) >= 2:
            return self.simp(t.a[-1])
        if t.op in ("trunc",) and len(t.a) == 1:
            x = self.simp(t.a[0])
            return x if integral(x) else mk("trunc", x)
        a = tuple(self.simp(x) for x in t.a)
        return t if a == t.a else rebuild(t.op, a)

    def empty(self, v):
        if v is EMPTY:
            return TRUE
        if v.op == "cfg" or v.op in ("vec", "push"):
            return FALSE            # a list that is given, or a positive number of entries
        return mk("isempty", v)

    def value(self, loc):
        """what a list holds: the last value written to it in this case (its fill-in is written only when the list is absent)"""
        r = None
        for e in self.it.events:
            if e.kind in ("lwrite", "write") and e.loc is loc and self.holds(e) is not False:
                r = e.val
        return r

    def holds(self, e):
        """True / False / None: the event happens in this case (existence of the file taken for granted)"""
        un = False
        for g in e.guards():
            v = self.simp(g)
            if v is FALSE:
                return False
            if v is TRUE or any(n in show(g) for n in ENV):
                continue
            un = True
        return None if un else True

    def after(self, locs, upto=None):
        """last value written to a location in this case, False when it is uncertain"""
        r = None
        for e in self.it.events:
            if upto is not None and e.seq > upto.seq:
                break
            if e.kind in ("lwrite", "write") and e.loc is locs:
                h = self.holds(e)
                if h is None:
                    r = False
                elif h:
                    r = e.val
        return r if not isinstance(r, Term) else self.simp(r)


def integral(x):
    return x.op in ("i", "cfg", "size") or isconst(x) and isinstance(x.a[0], int) or \
        x.op == "op" and x.a[0] in "+-*" and all(integral(y) for y in x.a[1:])


def iotas(it):
    """the first value of all ascending fill-ins: a number, or None when there are several or it is not known"""
    s = {e.d["args"][2] for e in it.events if e.kind == "call" and e.d["f"] == "std::iota" and len(e.d["args"]) > 2}
    if not s:
        return None
    if len(s) == 1 and isconst(next(iter(s))):
        return next(iter(s)).a[0]
    return None


def atoms(t):
    return {x for x in subterms(t) if x.op == "cfg"}


def plain(t):
    """made of configuration entries, loop counters and arithmetic only"""
    if t.op in ("cfg", "i", "c"):
        return True
    if t.op == "k":
        return True
    if t.op == "last":
        return t.a[0].op != "sorted"
    if t.op == "elem":
        return plain(t.a[0]) and plain(t.a[1])
    if t.op in ("size", "maxof"):
        return t.a[0].op == "cfg"
    if t.op == "op":
        return all(plain(x) for x in t.a[1:] if isinstance(x, Term))
    return t.op == "vec" and all(plain(x) for x in t.a)


def same(a, b):
    try:
        return Norm()(a).eq(Norm()(b))
    except Exception:
        return a is b


def want(case, key, idx):
    l = key if key == BI else key + "_per_board"
    if case.given.get(l):
        return mk("elem", mk("cfg", l), idx)
    return mk("cfg", key)


def judge(c, rule, key, where, got, exp, what):
    if got is not None and got is not False and same(got, exp):
        c.ok(rule, where, what + " = " + sh(exp))
    elif isinstance(got, Term) and plain(got):
        c.bad(rule, key, where, "%s is %s instead of %s" % (what, sh(got), sh(exp)))
    else:
        c.und(rule, where, "%s: %s" % (what, sh(got) if isinstance(got, Term) else "not known"))


def sh(t):
    return show(t).replace("cfg(", "config(")[:160]


def trips(case, L):
    """number of iterations of a counting loop starting at 0"""
    if L.kind == "range" and L.start is not None and isconst(L.start) and L.start.a[0] == 0 and L.step == 1 and L.bound is not None and not L.has_break:
        return case.simp(L.bound)
    if L.kind == "each" and L.contval is not None and not L.has_break:
        return case.simp(mk("size", L.contval))
    return None


# ------------------------------------------------------------------ patterns
def build(c, it, cases, e, key, gen):
    L = e.loops()[-1] if e.loops() else None
    if L is None or len(e.d["args"]) < 5:
        c.und("own", e, "pattern built outside a loop")
        return
    idx = L.key
    filled = [w for w in it.events if w.kind == "write" and w.loc.op == "elem" and w.val is value(it, e) and L in w.loops()]
    for w in filled:
        k = w.loc.a[1]
        if k is idx:
            c.ok("index", w, "%s: pattern i is kept as number i" % key)
        elif plain(k):
            c.bad("index", key + "/stored", w, "the pattern built from entry i is kept as number %s" % sh(k))
        else:
            c.und("index", w, sh(k))
    for s in cases:
        if s.holds(e) is False:
            continue
        n = trips(s, L)
        need = mk("op", "+", mk("maxof", mk("cfg", BI)), C(1)) if s.given.get(BI) else NB
        if not s.given.get(NX + "_per_board") and not s.given.get(NY + "_per_board"):
            if n is None:
                c.und("count", e, "number of patterns")
            else:
                judge(c, "count", "%s/patterns/%s" % (key, bool(s.given.get(BI))), e, n, need, "%s %s: number of patterns" % (key, s.name()))
        for i, k in enumerate((NX, NY)):
            a = e.d["args"][i]
            judge(c, "own", "%s/%s" % (key, k), e, s.simp(a), want(s, k, idx), "%s %s: %s of pattern i" % (key, s.name(), k))
            short(c, s, a, n, need, key, k, e)
    for i, k in ((2, "length_square"), (3, "length_marker")):
        judge(c, "own", "%s/%s" % (key, k), e, cases[0].simp(e.d["args"][i]), mk("cfg", k), "%s: %s" % (key, k))


def value(it, e):
    """the term of the pattern a create call returns"""
    return mk("call", CREATE, *e.d["args"])


def short(c, s, a, n, need, key, k, e):
    """the common setting is repeated for every pattern"""
    for v in subterms(a):
        if v.op == "vec" and len(v.a) > 1 and s.simp(v.a[1]) is mk("cfg", k) and not s.given.get(k + "_per_board"):
            m = s.simp(v.a[0])
            judge(c, "count", "%s/%s/%s" % (key, k, bool(s.given.get(BI))), e, m, need, "%s %s: entries of the repeated %s" % (key, s.name(), k))
            return


# ------------------------------------------------------------------ marker numbers
class Unknown(Exception):
    pass


def lin(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def markers(c, it, e, key):
    L = e.loops()[-1] if e.loops() else None
    if L is None:
        c.und("markers", e, "pattern built outside a loop")
        return
    pat = value(it, e)
    cur = {w.loc for w in it.events if w.kind == "lwrite" and w.val is pat and L in w.loops()}
    maps = {w.loc.a[0] for w in it.events if w.kind == "write" and w.loc.op == "elem" and w.val is pat and L in w.loops()}
    where = {w.loc.a[0]: w.loc.a[1] for w in it.events if w.kind == "write" and w.loc.op == "elem" and w.val is pat and L in w.loops()}

    def owner(x):
        """index of the board whose pattern x is: a term over the loop key"""
        while x.op == "call" and x.a[0].endswith(("::operator->", "::get", "::operator*")) and len(x.a) == 2 or x.op in ("deref", "addr0"):
            x = x.a[-1]
        if x in cur or x is pat:
            return L.key
        if x.op == "elem" and x.a[0] in maps and where[x.a[0]] is L.key:
            return x.a[1]
        return None

    def ev(t, i, st):
        """linear form over the numbers of markers n_j"""
        if isconst(t) and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
            return {None: t.a[0]} if t.a[0] else {}
        if t is L.key:
            return {None: i} if i else {}
        if t.op == "lam" and t.a[0] == L.uid and t.a[1] in st:
            return st[t.a[1]]
        if t.op == "lam" and t.a[0] == L.uid and i is not None and L.kind == "range":
            raise Unknown(show(t))
        if t.op == "size":
            x = t.a[0]
            if x.op == "lam":
                x = x.a[1]
            if x.op == "fld" and x.a[1] == "ids":
                o = owner(x.a[0])
                if o is not None:
                    j = ev(o, i, st)
                    if set(j) <= {None}:
                        return {j.get(None, 0): 1}
        if t.op == "op" and len(t.a) == 3 and t.a[0] in "+-*":
            a, b = ev(t.a[1], i, st), ev(t.a[2], i, st)
            if t.a[0] == "+":
                return lin(a, b)
            if t.a[0] == "-":
                return lin(a, b, -1)
            for x, y in ((a, b), (b, a)):
                if set(x) <= {None}:
                    return {k: v * x.get(None, 0) for k, v in y.items() if v * x.get(None, 0)}
        if t.op in ("trunc", "cast"):
            return ev(t.a[-1], i, st)
        if t.op == "ite":
            return ev(t.a[1] if test(t.a[0], i, st) else t.a[2], i, st)
        raise Unknown(show(t)[:80])

    def test(g, i, st):
        if g is TRUE or any(n in show(g) for n in ENV):
            return True
        if g is FALSE:
            return False
        if g.op == "op" and g.a[0] == "!" and len(g.a) == 2:
            return not test(g.a[1], i, st)
        if g.op == "op" and g.a[0] in ("&&", "||"):
            f = all if g.a[0] == "&&" else any
            return f(test(x, i, st) for x in g.a[1:])
        if g.op == "op" and len(g.a) == 3 and g.a[0] in ("==", "!=", "<", "<=", ">", ">="):
            d = lin(ev(g.a[1], i, st), ev(g.a[2], i, st), -1)
            if set(d) <= {None}:
                v = d.get(None, 0)
                return {"==": v == 0, "!=": v != 0, "<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[g.a[0]]
        if g.op == "isempty":
            x = g.a[0]
            if x in maps or x.op == "lam" and x.a[1] in maps or x.op in ("agg", "filled") and any(y is L.key or y.op == "L" for y in subterms(x)):
                return i == 0
        raise Unknown(show(g)[:80])

    shifts = []
    for w in it.events:
        if w.kind == "write" and w.loc.op == "elem" and w.loc.a[0].op == "fld" and w.loc.a[0].a[1] == "ids" and L in w.loops() and \
                owner(w.loc.a[0].a[0]) is L.key:
            shifts.append(w)
    if not shifts:
        touched = [w for w in it.events if L in w.loops() and (w.kind in ("write", "push", "erase") and "ids" in show(w.d.get("loc") or w.d.get("cont") or TRUE)
                                                              or w.kind == "call" and ".ids" in "".join(show(a) for a in w.d.get("args") or () if isinstance(a, Term)))]
        if touched:
            c.und("markers", touched[0], "marker numbers changed in another way")
        else:
            c.bad("markers", key + "/unmoved", e, "the marker numbers of a board are never moved behind those of the boards before it")
        return
    # every marker of the board
    for w in shifts:
        inner = w.loops()[-1]
        if inner is L:
            c.und("markers", w, "which markers are moved")
            continue
        f = loop_full(inner)
        if inner.kind == "range" and f is None and inner.bound is not None:
            f = True if inner.bound.op == "size" else None
        g = [x for x in w.guards() if inner.key in set(subterms(x))]
        if g:
            f = None if f is not False else f
        c.judge(f, "markers", key + "/all", w, "all markers of the board are moved", "not all markers of the board are moved")
    # how far
    counters = {w.loc for w in it.events if w.kind == "lwrite" and L in w.loops() and any(x.op == "lam" and x.a[0] == L.uid and x.a[1] is w.loc
                                                                                      for e2 in it.events if L in e2.loops() for x in
                                                                                      subterms(tuple(v for v in e2.d.values() if isinstance(v, Term))))}
    st, entry = {}, [w for w in it.events if w.kind == "loop" and w.loops() and w.loops()[-1] is L]
    try:
        for l in counters:
            init = [w.val for w in it.events if w.kind == "lwrite" and w.loc is l and L not in w.loops() and (not entry or w.seq < entry[0].seq)]
            if not init:
                raise Unknown("start of " + show(l))
            st[l] = ev(init[-1], None, {})
        upd = [w for w in it.events if w.kind == "lwrite" and w.loc in counters and L in w.loops()]
        if any(w.loops()[-1] is not L for w in upd):
            raise Unknown("counter advanced in an inner loop")
        for i in range(5):
            off, nxt = {}, dict(st)
            hit = 0
            for w in sorted(upd + shifts, key=lambda w: w.seq):
                inner = w.loops()[-1]
                if not all(test(g, i, st) for g in w.guards()):
                    continue
                if w in shifts:
                    hit += 1
                    if not {x for x in subterms(w.val) if x is inner.key or x is w.loc or x.op == "lam" and (x.a[1] is w.loc or x.a[0] == inner.uid)}:
                        c.bad("markers", key + "/distinct", w, "all markers of a board get the same number")
                        return
                    off = shift(w, inner, L, lambda t: ev(t, i, st))
                else:
                    nxt[w.loc] = ev(w.val, i, st)
            if hit > 1:
                raise Unknown("several moves")
            st = nxt
            exp = {j: 1 for j in range(i)}
            if off != exp:
                c.bad("markers", key + "/offset", shifts[0], "the markers of board %d start at %s instead of %s" % (i, form(off), form(exp)))
                return
        c.ok("markers", shifts[0], "%s: the markers of board i start at n_0 + ... + n_(i-1) (unrolled for 5 boards)" % key)
    except Unknown as x:
        c.und("markers", shifts[0], "amount by which markers are moved: %s" % x)


def form(d):
    return " + ".join(("%s" % v if k is None else "n_%s" % k if v == 1 else "%s n_%s" % (v, k)) for k, v in sorted(d.items(), key=str)) or "0"


def shift(w, inner, L, ev):
    """what is added to a marker number"""
    old = [x for x in subterms(w.val) if x is w.loc or x.op == "lam" and x.a[1] is w.loc]
    z = w.val
    for o in old:
        z = subst(z, {o: C(0)})
    if not old:
        if inner.key in set(subterms(z)) and inner.kind == "range":
            z = subst(z, {inner.key: C(0)})
        else:
            raise Unknown(show(z)[:80])
    return ev(z)


# ------------------------------------------------------------------ boards of the calibrator
def boards(c, it, cases, key):
    news = [e for e in it.events if e.kind == "write" and e.loc.op == "elem" and e.loc.a[0].op == "fld" and e.loc.a[0].a[1] == "boards_3d_" and
            e.val.op == "new"]
    if not news:
        c.und("index", "calibrator", "boards are not stored in boards_3d_")
    for e in news:
        N, k = e.val, e.loc.a[1]
        L = e.loops()[-1] if e.loops() else None
        if L is None or k is not L.key:
            if L is not None and plain(k):
                c.bad("index", "boards/slot", e, "board number %s is kept as number %s" % (show(L.key), sh(k)))
            else:
                c.und("index", e, "number of the board: %s" % sh(k))
            continue
        for s in cases:
            n = trips(s, L)
            need = mk("size", mk("cfg", BI)) if s.given.get(BI) else NB
            some = not s.given.get(NX + "_per_board") and not s.given.get(NY + "_per_board") and not s.given.get(SQ + "_per_board")
            if some:
                if n is None:
                    c.und("count", e, "number of boards")
                else:
                    judge(c, "count", "boards/%s" % s.given.get(BI), e, n, need, "%s: number of boards" % s.name())
                got = s.after(fld(N, "board_id_"))
                judge(c, "index", "boards/number", e, got, k, "number written in the board")
            pat = mk("elem", mk("cfg", BI), k) if s.given.get(BI) else k
            # the pattern
            p = s.after(fld(N, "charuco_board_"))
            if isinstance(p, Term) and p.op == "call" and p.a[0] == CREATE:
                for i, q in enumerate((NX, NY)):
                    if s.given.get(q + "_per_board"):
                        judge(c, "index", "boards/pattern", e, p.a[1 + i], want(s, q, pat), "%s: %s of the pattern of board b" % (s.name(), q))
            elif some:
                c.und("index", e, "pattern of board b: %s" % (sh(p) if isinstance(p, Term) else "not known"))
            # its own settings
            val = {}
            for q, f in ((NX, "nb_x_square_"), (NY, "nb_y_square_"), (SQ, "square_size_")):
                got = s.after(fld(N, f))
                val[q] = want(s, q, pat)
                judge(c, "own", "boards/" + q, e, got, val[q], "%s: %s of board b" % (s.name(), q))
            for q, f in (("length_square", "length_square_"), ("length_marker", "length_marker_")):
                if some:
                    judge(c, "own", "boards/" + q, e, s.after(fld(N, f)), mk("cfg", q), "%s: %s of board b" % (s.name(), q))
            geometry(c, it, s, N, e, val)


def geometry(c, it, s, N, e, val):
    one = C(1)
    mx, my = binop("-", val[NX], one), binop("-", val[NY], one)
    judge(c, "points", "number", e, s.after(fld(N, "nb_pts_")), binop("*", mx, my), "%s: number of corners" % s.name())
    ps = [p for p in it.events if p.kind == "push" and p.cont is fld(N, "pts_3d_") and s.holds(p) is not False]
    if len(ps) != 1:
        if ps:
            c.und("points", e, "corners filled in at %d places" % len(ps))
        else:
            w = [p for p in it.events if p.kind == "write" and p.loc.op == "elem" and p.loc.a[0] is fld(N, "pts_3d_")]
            c.und("points", w[0] if w else e, "corners filled in another way")
        return
    p = ps[0]
    Ls = [l for l in p.loops() if l not in e.loops()]
    v = s.simp(p.val)
    if v.op not in ("point", "v3", "list") or len(v.a) != 3:
        c.und("points", p, "corner: %s" % show(v)[:100])
        return
    if len(Ls) == 2:
        o, i = Ls
        to, ti = trips(s, o), trips(s, i)
        if to is None or ti is None:
            c.und("points", p, "loops over the corners")
            return
        judge(c, "points", "rows", p, to, my, "%s: rows of corners" % s.name())
        judge(c, "points", "columns", p, ti, mx, "%s: corners of a row" % s.name())
        x, y = i.key, o.key
        if any(g for g in p.guards() if {x, y} & set(subterms(g))):
            c.und("points", p, "corners are left out")
    elif len(Ls) == 1:
        c.und("points", p, "corners filled in by one loop")
        return
    else:
        c.und("points", p, "corners filled in by %d loops" % len(Ls))
        return
    for a, exp, nm in ((v.a[0], binop("*", x, val[SQ]), "x"), (v.a[1], binop("*", y, val[SQ]), "y"), (v.a[2], C(0), "z")):
        judge(c, "points", nm, p, a, exp, "%s: %s of the corner in column %s, row %s" % (s.name(), nm, show(x), show(y)))


# ------------------------------------------------------------------ images
def draw(c, it, cases, key):
    ds = [e for e in it.events if e.kind == "call" and e.d["f"].endswith("CharucoBoard::draw")]
    if not ds:
        c.und("images", "generator", "no board is drawn")
    for e in ds:
        L = e.loops()[-1] if e.loops() else None
        o = e.d.get("o")
        while isinstance(o, Term) and o.op == "call" and len(o.a) == 2:
            o = o.a[1]
        k = o.a[1] if isinstance(o, Term) and o.op == "elem" else None
        if L is None or k is None or k is not L.key:
            c.und("images", e, "board that is drawn: %s" % (show(o)[:80] if isinstance(o, Term) else "?"))
            continue
        if L.kind == "each":
            f = loop_full(L)
        else:
            f = None
            n = trips(cases[0], L)
            if n is not None and plain(n):
                judge(c, "images", "all", e, n, NB, "number of images")
                f = True
        c.judge(f, "images", "all", e, "an image for every board", "not every board gets an image")
        # the detector expects the default border of one bit
        bits = e.d["args"][3] if len(e.d["args"]) > 3 else C(1)
        set_ = [x for f in c.fns() for x in walk(f.get("body")) if x.get("k") == "mem" and x.get("n") == "markerBorderBits"]
        c.judge(None if set_ or not isconst(bits) else bits.a[0] == 1, "images", "border", e, "markers are drawn with the border the detection expects",
                "markers are drawn with a border of %s bits, the detection expects 1" % show(bits))
        sz = e.d["args"][0]
        if sz.op not in ("point", "list") or len(sz.a) != 2:
            c.und("images", e, "size: %s" % show(sz)[:80])
        else:
            for s in cases:
                if s.given[NX + "_per_board"] or s.given[NY + "_per_board"]:
                    continue
                for i, q in enumerate((RX, RY)):
                    judge(c, "images", q, e, s.simp(sz.a[i]), want(s, q, k), "%s: %s of board i" % (s.name(), q))
                    for v in subterms(sz.a[i]):
                        if v.op == "vec" and len(v.a) > 1 and not s.given[q + "_per_board"]:
                            judge(c, "count", "generator/" + q, e, s.simp(v.a[0]), NB, "%s: entries of the repeated %s" % (s.name(), q))
        # kept in board order
        out = [x for x in it.events if x.kind == "push" and x.val.op == "out" and x.val.a[0] == e.d["f"] and L in x.loops()]
        for x in out:
            g = [y for y in x.guards() if y not in e.guards()]
            if x.val.a[2] is sz and not g and x.loops() == e.loops():
                c.ok("images", x, "images are listed in board order")
            else:
                c.und("images", x, "which image is listed")
        for w in (x for x in it.events if x.kind == "call" and x.d["f"] == "cv::imwrite"):
            Lw = w.loops()[-1] if w.loops() else None
            img = w.d["args"][1] if len(w.d["args"]) > 1 else None
            if Lw is None or img is None or img.op != "out" or img.a[0] != e.d["f"]:
                c.und("images", w, "image that is saved")
                continue
            if Lw.key not in set(subterms(img)):
                c.bad("images", "saved/which", w, "the same image is saved for every board")
                continue
            nums = [y for y in it.events if y.kind == "call" and "operator<<" in y.d["f"] and y.seq < w.seq and y.loops() == w.loops()
                    and any(x is Lw.key for x in y.d["args"])]
            if not nums and not any(x is Lw.key for x in subterms(w.d["args"][0])):
                c.und("images", w, "name of the saved image")
            f = loop_full(Lw)
            c.judge(True if f and Lw.key in set(subterms(img)) else f and None, "images", "saved", w, "every image is saved", "not every image is saved")
