"""C16: samples are drawn only where they exist, and pose estimation always leaves a determined result."""
from sa.core import *
from checks.C09 import cmp, flat, isnot

FILE = "geometrytools.cpp"
IDXVEC = "std::iota"
# functions that fill as many entries as their input has
SAMESIZE = {("cv::projectPoints", 5): 0, ("cv::fisheye::projectPoints", 1): 0, ("cv::fisheye::undistortPoints", 1): 0,
            ("cv::undistortPoints", 1): 0}
MIN_PNP = 4
MIN_HANDEYE = 3


def run(c):
    c.rule("sample", "an index into a sample, a set of points, poses or clusters is below its number of elements")
    c.rule("minimum", "a minimal solver receives as many points or poses as it needs")
    c.rule("defined", "the rotation and translation a RANSAC returns are set whatever the number of points")
    c.rule("own", "a kept estimate is not overwritten by the next iteration (no shared matrix data)")
    c.rule("bounded", "a RANSAC loop ends after the given number of iterations at the latest")
    c.rule("gate", "a board observation with too few inliers is not valid")
    c.rule("common", "hand-eye calibration runs only with enough common poses in both lists")
    c.rule("clusters", "the poses are not split into more clusters than there are poses")
    floor = common(c)
    fns = [f for f in c.fns() if f["file"].endswith(FILE) and f.get("body")]
    for fn in sorted(fns, key=lambda f: f["name"]):
        it = c.it(fn, opaque=[], tag="deep")
        samples(c, fn, it, floor if fn["name"] in HE else None)
        minima(c, fn, it)
        clusters(c, fn, it)
        bounded(c, fn, it)
    for fn in c.fns():
        if fn.get("body"):
            own(c, fn)
    defined(c)
    gate(c)
    c.need("sample", 20)
    c.need("minimum", 2)
    c.need("defined", 4)
    c.need("own", 5)
    c.need("gate", 1)
    c.need("common", 2)
    return "other", "index ranges, sizes and definite results of the minimal-sample estimators"


# ---------------------------------------------------------------- iterations
def bounded(c, fn, it):
    for x in it.events:
        if x.kind != "loop" or x.loop.kind != "while" or x.loop.cond is None or x.fn["u"] != fn["u"]:
            continue
        L = x.loop
        hs = {v[1]: v for v in L.vars.values()}
        # comparisons of a variable of the loop with a number given to the function
        tests = [t for t in subterms(L.cond) if t.op == "op" and len(t.a) == 3 and t.a[0] in ("<", "<=", ">", ">=", "!=") and
                 any(y in hs for y in t.a[1:]) and any(y.op == "arg" for y in t.a[1:])]
        for t in tests:
            h = next(y for y in t.a[1:] if y in hs)
            st = hs[h][2]
            up = st.op == "op" and st.a[0] == "+" and h in st.a[1:] and any(isconst(y) and y.a[0] > 0 for y in st.a[1:])
            v = without(L.cond, t)
            k = "%s in %s" % (show(t.a[1] if t.a[1].op == "arg" else t.a[2])[:30], fn["name"])
            if v is not False:
                c.bad("bounded", k, x, "the loop goes on after the given number of iterations: %s" % show(L.cond)[:120])
            elif up:
                c.ok("bounded", x, "at most %s iterations" % show(t)[:60])
            elif st.op == "ite" and h in st.a[1:]:
                c.bad("bounded", k, x, "an iteration is counted only if %s" % show(st.a[0])[:100])
            else:
                c.und("bounded", x, "counter %s" % show(st)[:80])


def without(t, f):
    """three-valued value of the condition when f does not hold"""
    if t is f:
        return False
    if t.op in ("&&", "||") or t.op == "op" and t.a[0] in ("&&", "||"):
        w = t.op if t.op in ("&&", "||") else t.a[0]
        v = [without(x, f) for x in t.a if isinstance(x, Term)]
        hit = w == "||"
        return hit if hit in v else (not hit) if v and all(x is (not hit) for x in v) else None
    if t.op == "op" and t.a[0] == "!":
        v = without(t.a[1], f)
        return None if v is None else not v
    return None


# ---------------------------------------------------------------- sizes
def base(v):
    while True:
        if v.op == "agg":
            v = v.a[0]
        elif v.op == "out" and isinstance(v.a[0], str) and (v.a[0], num(v.a[1])) in SAMESIZE:
            v = v.a[2 + SAMESIZE[(v.a[0], num(v.a[1]))]]
        elif v.op == "out" and v.a[0] in ("std::shuffle", "std::sort", "std::random_shuffle", "std::iota"):
            v = v.a[-1]
        else:
            return v


def num(x):
    if isinstance(x, Term):
        return x.a[0] if isconst(x) else None
    return x


def size(v):
    v = base(v)
    if v is EMPTY:
        return C(0)
    if v.op == "list":
        return C(len(v.a))
    if v.op == "vec":
        return norm(v.a[0])
    if v.op == "push":
        return binop("+", size(v.a[0]), C(1))
    if v.op == "collect" and v.a[1] is EMPTY and v.a[3] is TRUE and LOOPS:
        L = LOOPS[-1].get(v.a[0].a[0])
        if L is not None and not L.has_break:
            if L.kind == "each" and L.contval is not None:
                return size(L.contval)
            if L.kind == "range" and L.start is C(0) and L.bound is not None:
                return norm(L.bound)
    return mk("size", v)


LOOPS = []


def norm(t):
    """sizes written as .size(), .rows or .size[0]"""
    if t.op == "size":
        return size(t.a[0])
    if t.op == "cast" or t.op == "trunc":
        return norm(t.a[-1])
    if t.op == "elem" and t.a[1] is C(0) and t.a[0].op == "fld" and t.a[0].a[1] == "size":
        return size(t.a[0].a[0])
    if t.op == "fld" and t.a[1] == "rows":
        return size(t.a[0])
    if t.op == "call" and t.a[0] in ("std::min", "std::max"):
        return mk("call", t.a[0], *[norm(x) for x in t.a[1:]])
    return t


class Sizes:
    def __init__(self, it, guards, floor=None):
        LOOPS[:] = [it.loops_by_uid]
        self.it = it
        self.guards = list(flat(guards))
        self.low = dict(floor or {})
        for g in self.guards:
            m = cmp(g)
            if m:
                lo, hi, strict = norm(m[0]), norm(m[1]), m[2]
                if isconst(lo) and isinstance(lo.a[0], (int, float)):
                    n = int(lo.a[0] // 1) + 1 if strict else -int(-lo.a[0] // 1)
                    self.low[hi] = max(self.low.get(hi, 0), n)
            elif isnot(g) and g.a[-1].op == "isempty":
                s = size(g.a[-1].a[0])
                self.low[s] = max(self.low.get(s, 0), 1)
            elif g.op == "op" and g.a[0] in ("==", "!="):
                for a, b in ((g.a[1], g.a[2]), (g.a[2], g.a[1])):
                    if isconst(a) and isinstance(a.a[0], int):
                        if g.a[0] == "==":
                            self.low[norm(b)] = max(self.low.get(norm(b), 0), a.a[0])
                        elif a.a[0] == 0 and norm(b).op == "size":
                            self.low[norm(b)] = max(self.low.get(norm(b), 0), 1)

    def lower(self, n):
        """a number of elements there are at least; exact when the second value is True: fewer are impossible to exclude"""
        if isconst(n):
            return n.a[0], True
        if n in self.low:
            return self.low[n], True
        p = self.paired(n)
        if p:
            return p, True
        if n.op == "call" and n.a[0] == "std::min":
            ls = [self.lower(norm(x)) for x in n.a[1:]]
            return min(l for l, _ in ls), any(e for l, e in ls if l == min(x for x, _ in ls))
        if n.op == "op" and n.a[0] == "+" and any(isconst(x) for x in n.a[1:]):
            k = [x for x in n.a[1:] if isconst(x)][0]
            o = [x for x in n.a[1:] if x is not k][0]
            l, e = self.lower(norm(o))
            return l + k.a[0], e
        if n.op == "op" and n.a[0] == "idiv" and isconst(n.a[2]):
            l, e = self.lower(norm(n.a[1]))
            return l // n.a[2].a[0], e
        return 0, free(n)

    def paired(self, n):
        """points and their images come in lists of one length: a test of one holds for the other"""
        if n.op == "size" and n.a[0].op == "arg":
            return max([v for k, v in self.low.items() if k.op == "size" and k.a[0].op == "arg"], default=0)
        return 0

    def upper(self, n):
        """a constant number of elements that is never exceeded"""
        n = norm(n)
        if isconst(n):
            return n.a[0]
        if n.op == "call" and n.a[0] == "std::min":
            us = [u for u in (self.upper(x) for x in n.a[1:]) if u is not None]
            return min(us) if us else None
        if n.op == "size" and n.a[0].op == "collect":
            L, init, item, g = n.a[0].a
            s = self.upper(size(init))
            t = self.trips(L)
            return s + t if s is not None and t is not None else None
        return None

    def trips(self, L):
        loop = self.it.loops_by_uid.get(L.a[0])
        if loop is None:
            return None
        if loop.kind == "each" and loop.contval is not None:
            return self.upper(size(loop.contval))
        if loop.kind == "range" and loop.start is C(0) and loop.bound is not None:
            return self.upper(loop.bound)
        return None

    # ------------------------------------------------------------ indices
    def ceilings(self, k, seq, d=0):
        """numbers the index stays below"""
        while k.op in ("cast", "trunc"):
            k = k.a[-1]
        if d > 4:
            return []
        if isconst(k):
            return [C(k.a[0] + 1)] if isinstance(k.a[0], int) else []
        if k.op in ("k", "i"):
            L = self.it.loops_by_uid.get(k.a[-1])
            if L is None:
                return []
            if L.kind == "each" and L.contval is not None:
                return [size(L.contval)]
            if L.kind == "range" and L.bound is not None and L.start is not None and isconst(L.start) and L.start.a[0] >= 0:
                return [norm(L.bound)]
            return []
        if k.op == "elem":
            v = base(k.a[0])
            if v.op == "vec" and self.indices(v, seq):
                return [norm(v.a[0])]
            if v.op == "collect" and v.a[1] is EMPTY:
                return self.ceilings(v.a[2], seq, d + 1)
            return []
        if k.op == "op" and k.a[0] in ("+", "-") and len(k.a) == 3:
            a, b = k.a[1:]
            if k.a[0] == "+" and isconst(a):
                a, b = b, a
            if isconst(b) and isinstance(b.a[0], int):
                s = b.a[0] if k.a[0] == "+" else -b.a[0]
                return [binop("+", x, C(s)) for x in self.ceilings(a, seq, d + 1)]
        if k.op == "call" and k.a[0].startswith("std::uniform_int_distribution") and k.a[0].endswith("operator()"):
            e = [e for e in self.it.events if e.kind == "ctor" and e.seq < seq and str(e.d.get("t", "")).startswith("std::uniform_int_distribution")]
            if e and len(e[-1].d["args"]) == 2:
                hi = e[-1].d["args"][1]
                return [norm(binop("+", hi, C(1)))]
        return []

    def indices(self, v, seq):
        """a vector that holds the numbers from zero on, in some order"""
        for e in self.it.events:
            if e.kind in ("call", "icall") and e.d["f"] == IDXVEC and e.seq < seq:
                a = e.d["args"]
                if len(a) == 3 and a[0].op == "begin" and a[2] is C(0):
                    return True
        return False

    def below(self, n, s):
        """True / False / None: n <= s"""
        n, s = norm(n), norm(s)
        if n is s:
            return True
        k, o = shift(n)
        if o is not None and o.op == "call" and o.a[0] in ("std::min", "std::max"):
            rs = [self.below(norm(binop("+", norm(x), C(k))) if k else x, s) for x in o.a[1:]]
            stop = o.a[0] == "std::min"
            if stop in rs:
                return stop
            return not stop if all(r is (not stop) for r in rs) else None
        if s.op == "call" and s.a[0] == "std::min":
            rs = [self.below(n, x) for x in s.a[1:]]
            return True if all(r is True for r in rs) else False if False in rs else None
        k, o = shift(n)
        k2, o2 = shift(s)
        if o is o2 and o is not None or (o is not None and o2 is not None and o.op == o2.op == "size" and o.a[0].op == o2.a[0].op == "arg"):
            return k <= k2
        if isconst(n):
            l, exact = self.lower(s)
            if n.a[0] <= l:
                return True
            return False if exact and not (s.op == "size" and s.a[0].op == "collect") else None
        return None

    def half(self, k, s):
        """the middle of a sequence"""
        k, s = norm(k), norm(s)
        if k.op == "op" and k.a[0] == "idiv" and isconst(k.a[2]) and k.a[2].a[0] >= 2 and norm(k.a[1]) is s:
            l, exact = self.lower(s)
            return True if l >= 1 else False if exact and s.a[0].op == "arg" else None
        return None


def shift(n):
    """(constant, rest)"""
    if n.op == "op" and n.a[0] in ("+", "-") and len(n.a) == 3:
        a, b = n.a[1:]
        if n.a[0] == "+" and isconst(a):
            a, b = b, a
        if isconst(b) and isinstance(b.a[0], int):
            k, o = shift(norm(a))
            return k + (b.a[0] if n.a[0] == "+" else -b.a[0]), o
    return (n.a[0], None) if isconst(n) else (0, n)


def free(n):
    """a number that can be as small as zero"""
    if n.op == "size" and n.a[0].op in ("arg", "collect", "out"):
        return n.a[0].op == "arg" or n.a[0].op == "collect" and n.a[0].a[1] is EMPTY
    if n.op == "arg":
        return False
    if n.op == "fix":
        return n.a[1] is C(0)
    return False


# ---------------------------------------------------------------- rules
def samples(c, fn, it, floor=None):
    judged = random_(c, fn)
    for e in it.events:
        if e.kind != "index" or not e.fn["file"].endswith(FILE):
            continue
        S = Sizes(it, e.guards(), {mk("size", mk("arg", fn["params"][i]["n"], i)): floor for i in HE[fn["name"]]} if floor else None)
        t = str(e.d.get("t", ""))
        n = C(int(t.rsplit(",", 1)[1].strip(" >"))) if t.startswith("std::array<") else size(e.cv)
        ups = S.ceilings(e.key, e.seq)
        rs = [S.below(u, n) for u in ups] + [S.half(e.key, n)]
        key = "%s:%s:%s" % (e.fn["name"].split("::")[-1], e.cont.a[-1] if e.cont.op == "var" else show(e.cont)[:40],
                            e.key.a[0] if isconst(e.key) else e.key.op)
        what = "%s[%s] of %s elements" % (show(e.cont)[:60], show(e.key)[:60], show(n)[:80])
        if True in rs:
            c.ok("sample", e, what)
        elif False in rs and judged:
            c.bad("sample", key, e, "the index %s of %s may reach %s elements, but there may be fewer (%s)"
                  % (show(e.key)[:60], show(e.cont)[:40], show(ups[0] if ups else e.key)[:60], show(n)[:80]))
        else:
            c.und("sample", e, what)


def random_(c, fn):
    """draws samples itself or through the functions it calls"""
    return any(calls(c, fn, f) for f in ("std::shuffle", "std::random_shuffle", "cv::solvePnP")) or fn["name"].endswith("::median")


def minima(c, fn, it):
    for e in it.events:
        if e.kind not in ("call", "icall"):
            continue
        f = e.d["f"]
        a = [x for x in e.d["args"]]
        S = Sizes(it, e.guards())
        name = e.fn["name"].split("::")[-1]
        if f in ("cv::solvePnP", "cv::solvePnPRansac") and len(a) >= 2:
            guess = len(a) > 6 and a[6] is TRUE
            need = 3 if guess else MIN_PNP
            for x in a[:2]:
                n = size(x)
                l, exact = S.lower(n)
                if l >= need:
                    c.ok("minimum", e, "%s points" % show(n)[:80])
                elif exact and base(x).op != "arg":
                    c.bad("minimum", name + ":points", e, "a pose is estimated from %s points, which may be %d: at least %d are needed" % (show(n)[:80], l, need))
                else:
                    c.und("minimum", e, show(n)[:120])
        if f == "cv::calibrateHandEye":
            for x in a[:4]:
                u = S.upper(size(x))
                if u is not None and u < MIN_HANDEYE:
                    c.bad("minimum", name + ":poses", e, "hand-eye calibration from %d poses: at least %d are needed" % (u, MIN_HANDEYE))
                else:
                    c.ok("minimum", e, "number of poses not limited below %d" % MIN_HANDEYE)


def clusters(c, fn, it):
    for e in it.events:
        if e.kind in ("call", "icall") and e.d["f"] == "cv::kmeans" and fn is not e.fn:
            S = Sizes(it, e.guards())
            a = e.d["args"]
            data, k = size(a[0]), norm(a[1])
            r = S.below(k, data)
            if r is None and k.op in ("arg",) or isconst(k):
                r = False
            if r is None and all(x.op == "arg" or isconst(x) for x in (k.a[1:] if k.op == "call" and k.a[0] in ("std::min", "std::max") else [k])):
                r = False
            if r is None and k.op == "call" and k.a[0] == "std::max" and any(x.op == "arg" for x in k.a[1:]):
                r = False
            c.judge(r, "clusters", e.fn["name"].split("::")[-1], e, "%s clusters of %s" % (show(k)[:80], show(data)[:80]),
                    "the poses are split into %s clusters, which may be more than there are poses (%s)" % (show(k)[:60], show(data)[:60]))


OUTPUT = ("cv::InputOutputArray", "cv::_InputOutputArray", "cv::OutputArray", "cv::_OutputArray")


def ismat(t):
    t = (t or "").replace("const ", "").strip(" &")
    return t == "cv::Mat" or t.startswith("cv::Mat_<")


def inplace(c, body, pid, seen=()):
    """(written in place, given a new header) of a matrix in a piece of code"""
    w = h = None
    for x in walk(body):
        if x.get("k") == "bin" and x.get("op", "").endswith("=") and x["op"] not in ("==", "<=", ">=", "!="):
            a = x["a"]
            if a.get("k") == "call" and a.get("f", "").startswith(("cv::Mat::at", "cv::Mat_")) and "o" in a and (ref(a["o"]) or {}).get("id") == pid:
                w = w or x
        if x.get("k") != "call":
            continue
        f = x.get("f", "")
        m = f.split("::")[-1]
        for i, (a, t) in enumerate(zip(x.get("a", ()), x.get("pt", ()))):
            r = ref(a)
            if r is None or r["id"] != pid:
                continue
            if any(o in t for o in OUTPUT) or m in ("copyTo", "convertTo") and i == 0:
                w = w or x
            elif ismat(t) and t.strip().endswith("&") and not t.startswith("const"):
                g = c.prog.fns.get(x.get("u"))
                if g is None or not g.get("body") or g["u"] in seen or i >= len(g["params"]):
                    h = h or x
                else:
                    w2, h2 = inplace(c, g["body"], g["params"][i]["id"], seen + (g["u"],))
                    w, h = w or (w2 and x), h or (h2 and x)
        if "o" in x:
            r = ref(x["o"])
            if r is not None and r["id"] == pid:
                if m == "operator=":
                    t = (x.get("pt") or [""])[0]
                    if "MatExpr" in t:
                        w = w or x
                    else:
                        h = h or x
                if m in ("setTo", "push_back"):
                    w = w or x
                if m in ("release", "create"):
                    h = h or x
    return w, h


def own(c, fn):
    """headers shared with a matrix that is written in place again"""
    for n in walk(fn["body"]):
        if n.get("k") not in ("for", "rfor", "while", "do") or not n.get("body"):
            continue
        body = n["body"]
        local = {x["id"] for x in walk(body) if x.get("k") == "var" and not x.get("static")}
        shared, mats = [], {}
        for x in walk(body):
            if x.get("k") == "ref" and ismat(x.get("t")) and x["id"] not in local:
                mats[x["id"]] = x["n"]
            if x.get("k") != "call" or "o" not in x or not x.get("a"):
                continue
            m = x.get("f", "").split("::")[-1]
            r = ref(x["a"][0])
            if r is None or not ismat(r.get("t")) or r["id"] in local:
                continue
            if m == "operator=" and ismat(x["pt"][0] if x.get("pt") else "") and outlives(x["o"], local, r["id"]):
                shared.append((r, x))
            if m in ("push_back", "emplace_back") and str(x["o"].get("t", "")).startswith(("std::vector<cv::Mat", "std::list<cv::Mat")) \
                    and outlives(x["o"], local, r["id"]):
                shared.append((r, x))
        for r, x in shared:
            w, h = inplace(c, body, r["id"])
            key = "%s:%s" % (fn["name"].split("McCalib::")[-1], r["n"])
            c.judge(True if w is None else None if h else False, "own", key, fn, "%s" % r["n"],
                    "the matrix %s is kept without copying its data (line %d), but written again by the next iteration (line %d): the kept estimate changes with it"
                    % (r["n"], x["l"], w["l"] if w else 0))
        if not shared and mats:
            c.ok("own", fn, "%d matrices outlive an iteration, none is kept without a copy" % len(mats))


def ref(e):
    while e.get("k") in ("cast",) or e.get("k") == "ctor" and len(e.get("a", ())) == 1:
        e = e["e"] if e["k"] == "cast" else e["a"][0]
    return e if e.get("k") == "ref" else None


def outlives(e, local, other):
    while e.get("k") in ("mem", "idx", "cast", "call", "un"):
        n = e.get("o") or e.get("b") or e.get("e") or e.get("a")
        if isinstance(n, list):
            n = n[0] if n else None
        if n is None:
            return e.get("k") != "call"
        e = n
    if e.get("k") == "this":
        return True
    return e.get("k") == "ref" and e.get("id") not in local and e.get("id") != other


def defined(c):
    names = [f for f in c.fns() if f["file"].endswith(FILE) and f.get("body")
             and any(ismat(p["t"]) and p["t"].strip().endswith("&") and not p["t"].startswith("const") for p in f["params"])
             and calls(c, f, "cv::solvePnP")]
    if not names:
        raise Broken("no function estimates a pose from points")
    for fn in names:
        it = c.it(fn, opaque=[], tag="deep")
        for i, p in enumerate(fn["params"]):
            if not (ismat(p["t"]) and p["t"].strip().endswith("&") and not p["t"].startswith("const")):
                continue
            me = mk("arg", p["n"], i)
            ends = [(e.outs.get(me, me), e, tuple(e.guards())) for e in it.events if e.kind == "ret" and e.d.get("outs") is not None]
            if not ends or fn.get("ret") == "void":
                ends.append((it.store.get(me), fn, ()))
            ends = [(me if v is None else v, w, g) for v, w, g in ends]
            for s in selectors([v for v, w, g in ends] + [x for v, w, g in ends for x in g], fn):
                for v, at, gs in ends:
                    m = {k: C(x) for k, x in s.items()}
                    if any(truth(subst(g, m)) is False for g in gs):
                        continue
                    r, w = leaves(subst(v, m) if m else v, me)
                    what = "%s of %s%s" % (p["n"], fn["name"].split("::")[-1], "".join(" (%s = %d)" % (k.a[0], x) for k, x in s.items()))
                    key = "%s:%s" % (fn["name"].split("::")[-1], p["n"])
                    c.judge(r, "defined", key, at, what, "%s is not set %s" % (what, "if " + w if w else "on every path"))


def calls(c, fn, f, seen=None):
    seen = seen if seen is not None else set()
    if fn["u"] in seen:
        return False
    seen.add(fn["u"])
    if any(x.get("k") == "call" and x.get("f") == f for x in walk(fn["body"])):
        return True
    return any(calls(c, c.prog.fns[u], f, seen) for u in callees(fn["body"]) if u in c.prog.fns and c.prog.fns[u].get("body"))


def selectors(v, fn):
    """values of the parameters that select the camera model"""
    ps = {}
    for x in {x for t in v for x in subterms(t)}:
        if x.op == "op" and x.a[0] in ("==", "!="):
            for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                if a.op == "arg" and isconst(b) and isinstance(b.a[0], int) and not isinstance(b.a[0], bool):
                    if any(p["n"] == a.a[0] and p["t"].replace("const ", "").strip() in ("int", "unsigned int") for p in fn["params"]):
                        ps.setdefault(a, set()).add(b.a[0])
    if not ps:
        return [{}]
    a = sorted(ps, key=show)[0]
    return [{a: n} for n in (0, 1)]


def leaves(v, me, gs=(), depth=0):
    """True when no alternative of the value is the one on entry"""
    if depth > 30:
        return None, ""
    if v is me or v.op in ("undef", "bot") or v is EMPTY:
        return False, " and ".join(show(g)[:80] for g in gs[-2:])
    if v.op == "ite":
        r = True
        for x, g in ((v.a[1], v.a[0]), (v.a[2], unop("!", v.a[0]))):
            if truth(g) is False or contradictory(gs, (g,)):
                continue
            q, w = leaves(x, me, gs + (() if truth(g) else (g,)), depth + 1)
            if q is False:
                return q, w
            if q is None:
                r = None
        return r, ""
    if v.op == "fix":
        q, w = leaves(v.a[1], me, gs + (), depth + 1)
        return (q, "") if q is True else (q, w or "no sample has an inlier")
    return True, ""


def gate(c):
    fn = c.prog.fn("McCalib::BoardObs::estimatePose")
    it = c.it(fn)
    flag = mk("fld", it.entry.this if hasattr(it.entry, "this") else mk("this"), "valid_")
    v = it.store.get(flag)
    if v is None:
        ws = [e for e in it.events if e.kind == "write" and e.loc.op == "fld" and e.loc.a[1] == "valid_"]
        if ws:
            v = it.store.get(ws[-1].loc)
            flag = ws[-1].loc
    if v is None:
        c.bad("gate", "estimatePose", fn, "an observation stays valid whatever its number of inliers")
        return
    rows = {x for x in subterms(v) if norm(x).op == "size" and x.op in ("fld", "elem", "size")
            and any(y.op in ("call", "out") and "ransac" in str(y.a[0]) for y in subterms(x))}
    rows = {x for x in rows if norm(x).a[0].op == "call"}
    none = {x for x in subterms(v) if x.op == "isempty" and x.a[0].op == "call" and "ransac" in str(x.a[0].a[0])}
    if not rows and not none:
        c.und("gate", fn, "validity %s" % show(v)[:200])
        return
    for n in range(0, 8):
        m = {x: C(n) for x in rows}
        for x in subterms(v):
            if x.op == "nn":
                m[x] = TRUE
            if x in none:
                m[x] = TRUE if n == 0 else FALSE
        w = subst(v, m)
        for g in subterms(w):
            pass
        val = decide(w)
        if n < MIN_PNP:
            c.judge(None if val is None else val is FALSE, "gate", "few", fn, "%d inliers: not valid" % n,
                    "a board observation whose pose has %d inliers stays valid: four are needed" % n)
        else:
            c.judge(None if val is None else val is not FALSE, "gate", "enough", fn, "%d inliers: unchanged" % n,
                    "a board observation whose pose has %d inliers is dropped" % n) if n >= 7 else None


def decide(v):
    """value after the conditions were decided"""
    while v.op == "ite":
        g = truth(v.a[0])
        if g is None:
            return None
        v = v.a[1] if g else v.a[2]
    if v.op in ("&&", "||", "!", "op") and truth(v) is not None:
        return TRUE if truth(v) else FALSE
    if v.op == "&&" and any(truth(x) is False for x in v.a):
        return FALSE
    return v


def truth(g):
    if g is TRUE or isconst(g) and g.a[0] is True:
        return True
    if g is FALSE or isconst(g) and g.a[0] is False:
        return False
    if g.op == "&&" or g.op == "op" and g.a[0] == "&&":
        rs = [truth(x) for x in g.a if isinstance(x, Term)]
        return False if False in rs else None if None in rs else True
    if g.op == "||" or g.op == "op" and g.a[0] == "||":
        rs = [truth(x) for x in g.a if isinstance(x, Term)]
        return True if True in rs else None if None in rs else False
    if isnot(g):
        r = truth(g.a[-1])
        return None if r is None else not r
    m = cmp(g)
    if m and isconst(m[0]) and isconst(m[1]):
        return m[0].a[0] < m[1].a[0] if m[2] else m[0].a[0] <= m[1].a[0]
    if g.op == "op" and g.a[0] in ("==", "!=") and isconst(g.a[1]) and isconst(g.a[2]):
        return (g.a[1].a[0] == g.a[2].a[0]) == (g.a[0] == "==")
    return None


HE = {"McCalib::handeyeCalibration": (0, 1), "McCalib::handeyeBootstraptTranslationCalibration": (2, 3)}


def common(c):
    seen, least = set(), []
    for fn, it in c.its_calling(*HE):
        if fn["file"].endswith(FILE):
            continue
        for e in it.events:
            if e.kind not in ("call", "icall") or e.d["f"] not in HE or (e.fn["name"], e.line) in seen:
                continue
            S = Sizes(it, e.guards())
            ls = [e.d["args"][i] for i in HE[e.d["f"]]]
            tested = [S.low.get(size(l)) for l in ls]
            n = max([t for t in tested if t is not None], default=None)
            if fn is e.fn or len(e.stack) == 1 or n is not None:
                seen.add((e.fn["name"], e.line))
            key = "%s:%s" % (e.fn["name"].split("::")[-1], e.d["f"].split("::")[-1])
            least.append(n or 0)
            if n is None:
                und = any(x.op in ("size", "isempty") for g in S.guards for x in subterms(g))
                c.judge(None if und else False, "common", key, e, "no test of the number of poses was recognised",
                        "hand-eye calibration runs whatever the number of common poses")
            else:
                c.judge(n >= MIN_HANDEYE, "common", key, e, "at least %d poses" % n,
                        "hand-eye calibration runs with %d common poses: at least %d are needed" % (n, MIN_HANDEYE))
    return min(least, default=0)
