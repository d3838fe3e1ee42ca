"""C26: missing or unusable inputs are reported, not used."""
from sa.core import *

LW = dict(tag="lw", hooks={"localwrites": True})
DRAW = {"cv::circle", "cv::line", "cv::putText", "cv::drawMarker", "cv::rectangle", "cv::ellipse", "cv::arrowedLine", "cv::polylines",
        "cv::aruco::drawDetectedMarkers", "cv::aruco::drawDetectedCornersCharuco"}
ASK = {"empty", "release", "total", "isOpened", "operator<<"}
CTOR = "McCalib::Calibration::Calibration"


def run(c):
    c.rule("argument", "a command-line argument is used only after the number of arguments was compared with its position")
    c.rule("file", "values are read from a file only where that file was found to exist or to have been opened")
    c.rule("image", "an image read from disk is used only where it was found not to be empty")
    c.rule("skip", "an unreadable image does not end the reading of the others")
    c.rule("report", "a missing argument, configuration file, camera-parameter file or input image is reported")
    roots = [f for f in c.roots() if f["name"] != "runCalibrationWorkflow"]
    its = {}
    for fn in roots:
        its[fn["u"], fn["file"]] = (fn, c.it(fn, **LW))
    inner = {}
    for u, (fn, it) in its.items():
        if fn["name"] == "main" and "create_charuco" not in fn["file"]:
            continue            # each stage is judged by itself, not only as part of the program
        for e in it.events:
            if e.fn["u"] != fn["u"]:
                inner.setdefault(e.fn["u"], set()).add(u)
    for u, (fn, it) in sorted(its.items(), key=lambda x: x[1][0]["name"]):
        if fn["name"] == "main":
            arguments(c, fn, it)
            if "create_charuco" not in fn["file"]:
                program(c, fn, it)
                continue
        if fn["u"] in inner:
            continue            # judged where it is called
        files(c, fn, it)
        images(c, fn, it)
    c.need("file", 4)
    c.need("image", 4)
    c.need("argument", 2)
    c.need("report", 5)
    return "other", "guards of every use of a command-line argument, input file and image"


# ------------------------------------------------------------------ helpers
def terms(e):
    for k, v in e.d.items():
        if k in ("guards", "expr"):
            continue
        if isinstance(v, Term):
            yield v
        elif isinstance(v, (tuple, list)):
            for x in v:
                if isinstance(x, Term):
                    yield x


def disj(g):
    if g.op == "op" and len(g.a) == 3 and g.a[0] == "||":
        yield from disj(g.a[1])
        yield from disj(g.a[2])
    else:
        yield g


def conjs(gs):
    return conj(list(gs))


def reports(it):
    """events that tell the user something"""
    for e in it.events:
        if e.kind in ("log", "throw"):
            yield e
        elif e.kind == "call" and "operator<<" in str(e.d.get("f")) and any(x.op == "glob" and x.a[0] in ("std::cout", "std::cerr", "std::clog")
                                                                       for x in subterms(tuple(terms(e)))):
            yield e
        elif e.kind == "call" and str(e.d.get("f")).split("::")[-1] in ("printf", "fprintf", "puts", "perror"):
            yield e


def resolve(it, t):
    """locals that were set once replaced by what they hold, path conversions removed"""
    def one(l):
        vs = {e.val for e in it.events if e.kind == "lwrite" and e.loc is l}
        return next(iter(vs)) if len(vs) == 1 else None
    for _ in range(6):
        if t.op == "call" and len(t.a) == 2 and str(t.a[0]).split("::")[-1] in ("operator basic_string", "string", "c_str", "native", "u8string", "generic_string"):
            t = t.a[1]
        elif t.op == "var":
            v = one(t)
            if v is None:
                return t
            t = v
        elif t.op == "ctor" and str(t.a[0]).endswith("path") and len(t.a) >= 2 and isinstance(t.a[1], Term) and \
                (t.a[1].op != "elem" or t.a[1].a[0].op != "obj") and not isconst(t.a[1]):
            t = t.a[1]
        else:
            return t
    return t


# ------------------------------------------------------------------ arguments
def arguments(c, fn, it):
    argc, argv = [mk("arg", p["n"], i) for i, p in enumerate(fn["params"][:2])] if len(fn["params"]) >= 2 else (None, None)
    if argv is None:
        return
    key = "calibrate" if "calibrate" in fn["file"] else "generator"
    first, lowest = {}, {}
    for e in it.events:
        for t in terms(e):
            for x in subterms(t):
                if x.op == "elem" and x.a[0] is argv and isconst(x.a[1]) and x.a[1].a[0] >= 1:
                    k = x.a[1].a[0]
                    lo, un = bound(e.guards(), argc)
                    first.setdefault(k, e)
                    if k not in lowest or lo < lowest[k][0]:
                        lowest[k] = (lo, un, e)
    for k, (lo, un, e) in sorted(lowest.items()):
        if lo > max(lowest) + 1:
            c.bad("argument", "%s/%d refused" % (key, k), e, "argument %d is used only when there are at least %d: a complete command line is refused" % (k, lo - 1))
        elif lo > k:
            c.ok("argument", e, "%s: argument %d is used when there are at least %d" % (key, k, lo))
        elif un:
            c.und("argument", e, "%s: %s" % (key, show(un)[:100]))
        else:
            c.bad("argument", "%s/%d" % (key, k), e, "argument %d is used although there may be only %d" % (k, max(lo, 1) - 1))
        if any(contains_neg(r, lambda g: about_argc(g, argc, k)) for r in reports(it)):
            c.ok("report", e, "%s: a missing argument is reported" % key)
        elif lo > k:
            c.bad("report", key + "/argument", e, "nothing is reported when the argument is missing")


def about_argc(g, argc, k):
    """the guard holds when the argument is missing"""
    r = side(g, argc)
    if r is None:
        return False
    op, n = r
    return {"==": n <= k, "!=": True, "<": True, "<=": True, ">": False, ">=": False}[op]


def side(g, argc):
    if g.op == "op" and len(g.a) == 3 and g.a[0] in ("==", "!=", "<", "<=", ">", ">="):
        a, b = g.a[1], g.a[2]
        if a is argc and isconst(b):
            return g.a[0], b.a[0]
        if b is argc and isconst(a):
            return {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(g.a[0], g.a[0]), a.a[0]
    return None


def bound(gs, argc):
    """least number of arguments under these guards"""
    lo, un = 0, None
    for g in conjs(gs):
        r = side(g, argc)
        if r is None:
            if argc in set(subterms(g)):
                un = g
            continue
        op, n = r
        if op == "==":
            lo = max(lo, n)
        elif op == ">=":
            lo = max(lo, n)
        elif op == ">":
            lo = max(lo, n + 1)
        elif op == "!=" and n == 1 and lo <= 1:
            un = g
    return lo, un


def contains_neg(e, pred):
    return any(any(pred(x) for x in disj(g)) for g in conjs(e.guards()))


# ------------------------------------------------------------------ files
def opened(it):
    """(event, file object, path) of every file opened for reading"""
    for e in it.events:
        if e.kind == "call" and e.d["f"] == "cv::FileStorage::open" and len(e.d["args"]) >= 2 and isconst(e.d["args"][1]) and \
                e.d["args"][1].a[0] in (0, 4):
            yield e, e.d.get("o"), e.d["args"][0]
        elif e.kind == "ctor" and e.d.get("t") == "cv::FileStorage" and len(e.d.get("args") or ()) >= 2 and isconst(e.d["args"][1]) and \
                e.d["args"][1].a[0] in (0, 4):
            yield e, e.d.get("obj"), e.d["args"][0]


def objects(it, loc):
    s = {loc} if isinstance(loc, Term) else set()
    for e in it.events:
        if e.kind == "lwrite" and e.loc is loc and e.val.op == "obj":
            s.add(e.val)
    return s


def files(c, fn, it):
    name = fn["name"].replace("McCalib::", "")
    for o, loc, path in opened(it):
        P = resolve(it, path)
        objs = objects(it, loc)
        what = label(P)
        verdict, wit, n = True, None, 0
        atom = None
        for e in it.events:
            if e.seq <= o.seq or not reads(e, objs):
                continue
            n += 1
            v, g = checked(it, e.guards(), P, objs)
            if v is True:
                atom = g
            elif verdict is True or v is False and verdict is None:
                verdict, wit = v, (e, g)
        if not n:
            c.und("file", o, "%s: nothing is read from %s" % (name, what))
            continue
        if verdict is True:
            c.ok("file", o, "%s: %d reads from %s, where it exists" % (name, n, what))
        elif verdict is None:
            c.und("file", wit[0], "%s: check of %s: %s" % (name, what, show(wit[1])[:120]))
        else:
            c.bad("file", "%s/%s" % (name.split("::")[-1], what), wit[0], "values are read from %s %s" % (
                what, "where it does not exist" if wit[1] is not None else "without checking that it exists"))
        if verdict is True and "keypoints" not in what:
            neg = [r for r in reports(it) if contains_neg(r, lambda x: denies(it, x, P, objs)) and checked(it, r.guards(), P, objs)[0] is not True]
            c.judge(bool(neg), "report", "%s/%s" % (name.split("::")[-1], what), o, "a missing %s is reported" % what,
                    "nothing is reported when %s is missing" % what)


def label(P):
    for x in subterms(P):
        if x.op == "fld" and str(x.a[1]).endswith("path_"):
            return x.a[1].rstrip("_")
    for x in subterms(P):
        if x.op == "arg":
            return "the file named by " + str(x.a[0])
    return "a file"


def reads(e, objs):
    """the event takes a value out of the file"""
    if e.kind in ("call", "ctor") and str(e.d.get("f")).split("::")[-1] in ("open", "isOpened", "release", "operator[]", "FileStorage"):
        return False
    if e.kind in ("lwrite",) and e.val.op == "obj":
        return False
    if e.kind not in ("call", "write", "lwrite", "push"):
        return False
    return any(x.op == "elem" and x.a[0] in objs for t in terms(e) for x in subterms(t))


def named(it, g, P):
    """the condition compares the name of the file with constants"""
    while g.op == "op" and g.a[0] == "!" and len(g.a) == 2:
        g = g.a[1]
    if g.op == "call" and str(g.a[0]).split("::")[-1] in ("empty", "compare", "operator==", "operator!="):
        xs = [a for a in g.a[1:] if isinstance(a, Term)]
    elif g.op == "op" and g.a[0] in ("==", "!=", "<", "<=") and len(g.a) == 3:
        xs = [x.a[1] if x.op == "size" and len(x.a) > 1 else x for x in g.a[1:]]
    else:
        return False
    return all(isconst(x) or x.op in ("str", "k") or resolve(it, x) is P or any(y is P or resolve(it, y) is P for y in subterms(x)) for x in xs)


def sides(it, g, P, objs):
    """+1: the guard holds only if the file is there, -1: only if it is not, None: about the file in another way, 0: about something else"""
    neg = False
    while g.op == "op" and g.a[0] == "!" and len(g.a) == 2:
        g, neg = g.a[1], not neg
    if g.op == "call":
        f = str(g.a[0]).split("::")[-1]
        if f in ("exists", "is_regular_file") and resolve(it, g.a[1]) is P:
            return -1 if neg else 1
        if f in ("isOpened", "open", "is_open", "good") and (len(g.a) > 1 and (g.a[1] in objs) or f == "open" and any(resolve(it, a) is P for a in g.a[1:] if isinstance(a, Term))):
            return -1 if neg else 1
        if f in ("has_filename", "extension", "has_extension"):
            return 0
    if g.op == "op" and len(g.a) == 3 and g.a[0] == "||":
        ds = disj(g)
        r = [sides(it, x, P, objs) for x in ds]
        if all(x == r[0] for x in r):
            return r[0]
        # the name alone says nothing about the file; another condition may
        plain = all(y == 1 or y == 0 and named(it, x, P) for x, y in zip(ds, r))
        return 0 if plain and not neg else None
    if g.op == "op" and len(g.a) == 3 and g.a[0] == "&&" and not neg:
        r = [sides(it, x, P, objs) for x in conjs([g])]
        for v in (1, -1, None):
            if v in r:
                return v
        return 0
    s = set(subterms(g))
    if s & objs and g.op == "call" and not any(x.op == "elem" and x.a[0] in objs for x in s):
        return None
    if any(x.op == "call" and str(x.a[0]).split("::")[-1] in ("exists", "status", "is_open", "good", "file_size", "access", "fopen", "stat") for x in s) and \
            any(resolve(it, a) is P for x in s if x.op == "call" for a in x.a[1:] if isinstance(a, Term)):
        return None
    return 0


def checked(it, gs, P, objs):
    un = None
    for g in conjs(gs):
        s = sides(it, g, P, objs)
        if s == 1:
            return True, g
        if s == -1:
            return False, g
        if s is None:
            un = g
    return (None, un) if un is not None else (False, None)


def denies(it, g, P, objs):
    return sides(it, g, P, objs) == -1


def program(c, fn, it):
    """the stages run only when there is a configuration"""
    op = [(o, loc, path) for o, loc, path in opened(it) if o.fn["name"] == CTOR]
    if not op:
        c.und("file", fn, "where the program reads its configuration")
        return
    o, loc, path = op[0]
    P, objs = resolve(it, path), objects(it, loc)
    verdict, wit, n = True, None, 0
    for e in it.events:
        if e.seq <= o.seq or e.kind not in ("write", "call", "push", "loop") or not e.fn["name"].startswith("McCalib::Calibration::") or \
                e.fn["name"] == CTOR or any("::Calibration::Calibration" in str(f) for f in e.stack):
            continue
        n += 1
        v, g = checked(it, e.guards(), P, objs)
        if v is not True:
            verdict, wit = v, (e, g)
            break
    if not n:
        c.und("file", fn, "stages of the program")
    elif verdict is True:
        c.ok("file", o, "the calibration runs only when the configuration exists")
    elif verdict is None:
        c.und("file", wit[0], show(wit[1])[:120])
    else:
        c.bad("file", "main/config", wit[0], "the calibration runs without a configuration")
    neg = [r for r in reports(it) if contains_neg(r, lambda x: denies(it, x, P, objs)) and checked(it, r.guards(), P, objs)[0] is not True]
    c.judge(bool(neg), "report", "main/config", o, "a missing configuration is reported", "nothing is reported when the configuration is missing")


# ------------------------------------------------------------------ images
def core(t):
    """the image a term stands for, drawings removed"""
    while True:
        if t.op == "call" and t.a[0] == "cv::imread":
            return t
        if t.op == "fix":
            t = t.a[1]
        elif t.op == "out" and t.a[0] in DRAW and t.a[1] == 0:
            t = t.a[2]
        elif t.op == "ite":
            a, b = core(t.a[1]), core(t.a[2])
            return a if a is b else None
        elif t.op == "call" and str(t.a[0]).endswith("::clone") and len(t.a) == 2:
            t = t.a[1]
        else:
            return None


def about(g, I):
    """+1: the guard holds only for an image that was read, -1: only for one that was not, None: unclear, 0: something else"""
    neg = False
    while g.op == "op" and g.a[0] == "!" and len(g.a) == 2:
        g, neg = g.a[1], not neg
    if g.op == "isempty" and core(g.a[0]) is I:
        return 1 if neg else -1
    if g.op == "call" and str(g.a[0]).endswith("::empty") and len(g.a) == 2 and core(g.a[1]) is I:
        return 1 if neg else -1
    if g.op == "op" and len(g.a) == 3 and g.a[0] == "||":
        r = [about(x, I) for x in disj(g)]
        return r[0] if all(x == r[0] for x in r) else None if None in r else 0
    if any(x.op in ("fld", "size") and isinstance(x.a[0], Term) and core(x.a[0]) is I or
           x.op == "call" and str(x.a[0]).split("::")[-1] in ("total", "size") and len(x.a) == 2 and core(x.a[1]) is I for x in subterms(g)):
        return None
    return 0


def images(c, fn, it):
    name = fn["name"].replace("McCalib::", "")
    seen = {}
    for e in it.events:
        if e.kind == "call" and e.d["f"] == "cv::imread":
            seen.setdefault(mk("call", "cv::imread", *e.d["args"]), e)
    # several reads with the same arguments are one image
    for I, o in seen.items():
        uses, verdict, wit, n = [], True, None, 0
        for e in it.events:
            if e.seq <= o.seq or not uses_image(e, I):
                continue
            n += 1
            v = [about(g, I) for g in conjs(e.guards())]
            if 1 in v:
                continue
            r = False if -1 in v or None not in v else None
            if verdict is True or r is False and verdict is None:
                verdict, wit = r, e
        where = o
        key = "%s/%s" % (name.split("::")[-1], o.fn["name"].split("::")[-1])
        if not n:
            c.ok("image", where, "%s: the image is only drawn on" % name)
        elif verdict is True:
            c.ok("image", where, "%s: %d uses of the image, where it is not empty" % (name, n))
        elif verdict is None:
            c.und("image", wit, name)
        else:
            c.bad("image", key, wit, "an image that could not be read is used (%s)" % (wit.d.get("f") or show(wit.d.get("loc") or TRUE)))
        for L in o.loops():
            ends = [how for how, gs in L.exits if any(about(x, I) == -1 for g in conjs(gs) for x in [g])]
            c.judge(not ends, "skip", key, where, "%s: the next image is read after an unreadable one" % name,
                    "no image is read any more after one that cannot be read")
        # images saved with the results show frames a camera may not have: only input images are reported
        if any(e.kind == "call" and e.d["f"] == "cv::imwrite" and len(e.d["args"]) > 1 and core(e.d["args"][1]) is I for e in it.events):
            continue
        if verdict is True and n:
            rep = [r for r in reports(it) if any(about(x, I) == -1 for g in conjs(r.guards()) for x in disj(g))]
            c.judge(bool(rep), "report", key, where, "an unreadable image is reported", "nothing is reported when the image cannot be read")


def uses_image(e, I):
    if e.kind == "write":
        if e.loc.op == "var" or root(e.loc).op == "var":
            return False
        return I in set(subterms(e.val))
    if e.kind in ("call", "icall"):
        f = str(e.d.get("f"))
        if f in DRAW or f.split("::")[-1] in ASK or f == "cv::imread":
            return False
        o = e.d.get("o")
        return any(isinstance(a, Term) and core(a) is I for a in e.d.get("args") or ()) or isinstance(o, Term) and core(o) is I
    return False
