"""C08: parallel board detection is free of data races.

The body of every task given to a thread pool is interpreted in place, with everything it calls inlined, and each
access to memory that is not the task's own is recorded together with the mutexes held there.
"""
from sa.assigned import nodes, bare as plainexpr
from sa.core import *
from sa.engine import Interp, bare

POSTS = ("boost::asio::post", "boost::asio::dispatch", "boost::asio::defer")
POOL = "boost::asio::thread_pool"
JOIN = (POOL + "::join", POOL + "::wait")
STOP = (POOL + "::stop",)
HIDDEN = ("rand", "std::rand", "srand", "std::srand", "strtok", "std::strtok", "localtime", "std::localtime", "gmtime", "std::gmtime",
          "ctime", "std::ctime", "asctime", "std::asctime", "setlocale", "std::setlocale", "setenv", "putenv")
QUIET = ("begin", "end", "cbegin", "cend", "find", "at", "operator[]", "front", "back", "data", "operator->", "operator*", "get", "ptr",
         "lower_bound", "upper_bound", "equal_range", "size", "empty", "count", "lock", "operator()", "row", "col", "c_str",
         "operator bool", "type", "channels", "rowRange", "colRange", "rbegin", "rend", "native_handle", "owns_lock", "try_lock", "unlock",
         "getExpectedCornersNum", "use_count", "is_open")
SYNC = ("std::atomic", "std::mutex", "std::shared_mutex", "std::recursive_mutex", "std::timed_mutex", "std::condition_variable",
        "std::once_flag", "std::shared_timed_mutex", "boost::asio::thread_pool")


# ------------------------------------------------------------ interpretation
def poster(found):
    """engine hook: a posted task is interpreted where it is posted, between marks"""
    def h(it, e, f, b, want_loc):
        if f not in POSTS or len(e["a"]) < 2:
            return None
        r = it.external(e, f, b)
        task = e["a"][1]
        t = it.val(task)
        outer = frozenset(x.uid for x in it.frames)
        key = it.uid(e, "post")
        ev = it.emit("post", e["l"], key=key, outer=outer, expr=e, pool=it.objloc(e["a"][0]), task=t, refs=[], known=False)
        it.ctx.append(("w", key))
        try:
            ok, refs = run_task(it, t, task, e)
        finally:
            it.ctx.pop()
        if ev is not None:
            ev.d["known"], ev.d["refs"] = ok, refs
            found.append(ev)
        it.emit("endpost", e["l"], key=key)
        return r
    return h


def unwrap(x):
    x = plainexpr(x)
    while isinstance(x, dict) and (x["k"] == "ctor" and len(x["a"]) == 1 or x["k"] == "call" and
                                   x["f"] in ("std::move", "std::forward") and x["a"]):
        x = plainexpr(x["a"][0])
    return x


def run_task(it, t, expr, e):
    """(understood, variables of the poster the task refers to)"""
    if t in it.closures:
        cl = it.closures[t]
        refs = [(c["n"], c["id"]) for c in cl.e["caps"] if c.get("by") == "ref" and "init" not in c]
        it.run_closure(t, [], e["l"])
        return True, refs
    if t.op == "call" and t.a[0] == "std::bind" and len(t.a) > 1:
        x = unwrap(expr)
        args = x["a"][1:] if isinstance(x, dict) and x.get("k") == "call" and x["f"] == "std::bind" else None
        fr, vals = t.a[1], list(t.a[2:])
        refs, locs = [], [None] * len(vals)
        for i, a in enumerate(args or []):
            a = unwrap(a)
            if isinstance(a, dict) and a.get("k") == "call" and a["f"] in ("std::ref", "std::cref") and a["a"]:
                locs[i] = it.arg_loc(a["a"][0])
                y = plainexpr(a["a"][0])
                if y.get("k") == "ref":
                    refs.append((y["n"], y["id"]))
            elif isinstance(a, dict) and a.get("k") == "un" and a["op"] == "&" and plainexpr(a["e"]).get("k") == "ref":
                refs.append((plainexpr(a["e"])["n"], plainexpr(a["e"])["id"]))
        if args is None and any(v.op == "call" and v.a[0] in ("std::ref", "std::cref") for v in vals):
            return False, refs
        if fr in it.closures:
            it.run_closure(fr, vals, e["l"], locs)
            return True, refs
        if fr.op == "fref" and fr.a[1] in it.prog.fns:
            fn = it.prog.fns[fr.a[1]]
            this = None
            if fn.get("cls") and len(vals) == len(fn["params"]) + 1:
                this, vals, locs = vals[0], vals[1:], locs[1:]
            if len(vals) != len(fn["params"]):
                return False, refs
            f = frame(it, fn, this, e)
            it.inlined.add(fn["u"])
            for p, v, l in zip(fn["params"], vals, locs):
                if l is not None and p["t"].rstrip().endswith("&"):
                    f.bind[p["id"]] = l
                    continue
                l = mk("var", f.uid, p["id"], p["n"])
                it.types[l] = p["t"]
                it.store[l] = v
                f.bind[p["id"]] = l
            it.run_body(f, fn["body"], e["l"], fn)
            return True, refs
    if t.op == "fref" and t.a[1] in it.prog.fns and not it.prog.fns[t.a[1]]["params"]:
        fn = it.prog.fns[t.a[1]]
        it.inlined.add(fn["u"])
        it.run_body(frame(it, fn, None, e), fn["body"], e["l"], fn)
        return True, []
    return False, []


def frame(it, fn, this, e):
    from sa.engine import Frame
    return Frame(fn, it.uid(e, ("task", fn["u"])), this)


# ------------------------------------------------------------------ memory
class Memory:
    def __init__(self, prog, it, cls):
        self.prog, self.it, self.cls0 = prog, it, cls

    def field(self, cls, f):
        seen = set()
        todo = [cls]
        while todo:
            k = todo.pop()
            r = self.prog.records.get(k)
            if r is None or k in seen:
                continue
            seen.add(k)
            for x in r["fields"]:
                if x["n"] == f:
                    return x["t"]
        return None

    def type(self, l):
        """declared type of a location, or None"""
        if l.op == "this":
            return self.cls0
        if l.op == "new":
            return str(l.a[0])
        if l.op == "fld":
            k = self.klass(l.a[0])
            return (self.field(k, l.a[1]) if k else None) or self.it.types.get(l)
        if l.op == "elem":
            t = self.type(l.a[0])
            m = args_of(t) if t else None
            if m:
                return m[1] if bare(t).startswith(("std::map<", "std::unordered_map<")) and len(m) > 1 else m[0]
            return self.it.types.get(l)
        if l.op == "lam":
            return self.type(l.a[1])
        if l.op == "agg":
            return self.type(l.a[0])
        if l.op == "call" and str(l.a[0]).endswith(("operator->", "operator*", "::get")) and len(l.a) > 1 and isinstance(l.a[1], Term):
            t = self.type(l.a[1])
            m = args_of(t) if t else None
            return m[0] if m else None
        if l.op == "ite":
            return self.type(l.a[1]) or self.type(l.a[2])
        return self.it.types.get(l)

    def klass(self, l):
        t = self.type(l)
        if not t:
            return None
        t = bare(t)
        while t.startswith(("std::shared_ptr<", "std::weak_ptr<", "std::unique_ptr<", "cv::Ptr<")):
            t = bare(args_of(t)[0])
        return bare(t.rstrip("*& "))

    def toks(self, l):
        """memory cells (class, field) a location stands for; elements stand for their container"""
        if l.op == "fld":
            return {(self.klass(l.a[0]) or "?", l.a[1])}
        if l.op in ("elem", "agg", "iter", "pair", "last", "ptr", "addr0", "begin", "end"):
            return self.toks(l.a[0])
        if l.op == "lam":
            return self.toks(l.a[1])
        if l.op == "ite":
            return self.toks(l.a[1]) | self.toks(l.a[2])
        if l.op == "glob":
            return set() if str(l.a[0]).startswith(("boost::", "std::", "cv::", "ceres::")) else {("", l.a[0])}
        if l.op in ("var", "arg"):
            return {("local", l)}
        return set()

    def shared(self, l, outer, published):
        """can another thread reach it?"""
        if l.op == "glob" and str(l.a[0]).startswith("thread_local "):
            return False
        if l.op in ("this", "glob", "arg"):
            return True
        if l.op == "var":
            return l.a[0] in outer
        if l.op == "new":
            return l in published
        if l.op in ("fld", "elem", "agg", "iter", "pair", "last", "ptr", "addr0", "begin", "end"):
            return self.shared(l.a[0], outer, published)
        if l.op == "lam":
            return self.shared(l.a[1], outer, published)
        if l.op == "ite":
            return self.shared(l.a[1], outer, published) or self.shared(l.a[2], outer, published)
        if l.op == "call" and str(l.a[0]).endswith(("operator->", "operator*", "::get", "::lock")):
            return any(self.shared(x, outer, published) for x in l.a[1:] if isinstance(x, Term))
        return False

    def sync(self, l):
        t = self.type(l)
        return bool(t) and bare(t).startswith(SYNC)


def args_of(t):
    """template arguments of a type"""
    i = t.find("<")
    if i < 0:
        return None
    out, d, cur = [], 0, ""
    for ch in t[i + 1:]:
        if ch == "<":
            d += 1
        if ch == ">":
            if d == 0:
                out.append(cur.strip())
                return out
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return None


def cells(e, M):
    """[(location, 'r'|'w')] touched by an event"""
    k = e.kind
    if k in ("write", "lwrite"):
        return [(e.loc, "w")] if e.d.get("how") not in ("decl",) else []
    if k in ("push", "mapins", "setins", "erase"):
        return [(e.cont, "w")]
    if k == "read":
        return [(e.loc, "r")]
    if k in ("test", "access", "index", "touch"):
        return [(e.cont, "r")]
    if k == "loop" and e.d["loop"].cont is not None:
        return [(e.d["loop"].cont, "r")] if isinstance(e.d["loop"].cont, Term) else []
    if k == "call" and isinstance(e.d.get("o"), Term):
        b = e.f.split("::")[-1]
        if e.d.get("m") == "mut" and b not in QUIET:
            return [(e.o, "w")]
        return [(e.o, "r")]
    return []


class Lock:
    def __init__(self, mutex, var, guards, shared, sure, uid):
        self.mutex, self.var, self.guards, self.shared, self.sure, self.uid = mutex, var, guards, shared, sure, uid


def holders(events):
    """event -> locks held there, by scope, in the order of the text"""
    held, out = [], {}
    n = 0
    for e in events:
        if e.kind == "lock":
            ms = [e.mutex] + [x for x in e.d.get("more", ()) if isinstance(x, Term)]
            deferred = any("defer" in show(x) for x in ms)
            sure = not any("try_to_lock" in show(x) for x in ms)
            for m in ms:
                if m is None or any(w in show(m) for w in ("std::defer_lock", "std::adopt_lock", "std::try_to_lock")):
                    continue
                n += 1
                held.append(Lock(m, e.var, frozenset(e.guards()), "shared_lock" in e.t, sure, n))
            if deferred:
                for x in held:
                    if x.var is e.var:
                        x.sure = None
        elif e.kind == "unlock":
            held = [x for x in held if x.var is not e.var]
        elif e.kind == "call" and isinstance(e.d.get("o"), Term):
            b = e.f.split("::")[-1]
            onlock = "_lock<" in e.f or "lock_guard<" in e.f
            if b == "unlock" and ("mutex" in e.f or onlock):
                for x in held:
                    if x.var is e.o:
                        x.sure = None
                held = [x for x in held if x.mutex is not e.o]
            elif b in ("lock", "lock_shared") and "mutex" in e.f and not onlock:
                n += 1
                held.append(Lock(e.o, None, frozenset(e.guards()), b == "lock_shared", True, n))
            elif b == "lock" and onlock:
                for x in held:
                    if x.var is e.o:
                        n += 1
                        x.sure, x.uid = True, n
        g = set(e.guards())
        got = {id(x) for x in held if x.sure is False and any(
            y.op in ("call", "nn") and any(z is x.var for z in subterms(y)) for gg in g for y in subterms(gg))}
        out[id(e)] = [Lock(x.mutex, x.var, x.guards, x.shared, x.sure or id(x) in got, x.uid) for x in held if x.guards <= g and x.sure is not None]
    return out


def publishes(e):
    """objects that become reachable from shared memory"""
    if e.kind in ("write", "push", "mapins", "setins"):
        v = e.d.get("val")
        if isinstance(v, Term):
            return [x for x in subterms(v) if x.op == "new"]
    return []


# -------------------------------------------------------------------- check
def inloop(fn, call, vid):
    """the loop of fn around the call that declares the variable, or None"""
    for L in nodes(fn["body"]):
        if L["k"] not in ("for", "rfor", "while", "do"):
            continue
        if not any(x is call for x in nodes(L)):
            continue
        for n in nodes(L):
            if n["k"] == "var" and n.get("id") == vid:
                return L
    return None


def positive(t):
    """True: a count that is at least one; False: may be zero; None: unknown"""
    if isconst(t):
        return t.a[0] >= 1 if isinstance(t.a[0], (int, float)) else None
    if t.op == "call" and t.a[0] == "std::max":
        r = [positive(x) for x in t.a[1:] if isinstance(x, Term)]
        return True if True in r else False if r and all(x is False for x in r) else None
    if t.op == "call" and t.a[0] == "std::thread::hardware_concurrency":
        return False
    if t.op in ("trunc", "cast"):
        return positive(t.a[-1])
    if t.op == "ite":
        c, a, b = t.a
        if c.op == "op" and c.a[0] in ("!=", ">", "==", "<", ">=", "<=") or c in (a, b):
            ra, rb = positive(a), positive(b)
            if ra is False and contains(c, a):
                ra = True if c is a or c.op == "op" and c.a[0] in ("!=", ">", ">=") else None
            if rb is False and contains(c, b):
                rb = True if c.op == "op" and c.a[0] in ("==", "<", "<=") else None
            return True if ra and rb else False if ra is False or rb is False else None
        return None
    if t.op == "op" and t.a[0] == "+":
        r = [positive(x) for x in t.a[1:]]
        return True if True in r else False if all(x is False for x in r) else None
    if t.op == "op" and t.a[0] in ("/", "idiv", ">>", "-", "*"):
        return False if positive(t.a[1]) is False and t.a[0] != "-" else None
    return None


def name(t):
    return ("%s::%s" % (t[0].split("::")[-1], t[1]) if t[0] not in ("", "local") else
            show(t[1]) if isinstance(t[1], Term) else t[1])


def run(c):
    c.rule("lock", "memory that some detection task modifies and another thread can reach is accessed by the tasks only while one common "
                   "mutex, itself shared by all tasks, is held")
    c.rule("section", "what a task decides from shared memory it acts upon before giving the lock up")
    c.rule("owner", "a task refers to no variable of the poster that ends or changes while the task may be waiting or running")
    c.rule("join", "after the first task is posted every way out of the poster, and every access to what the tasks share, comes after "
                   "join(), which waits for all tasks; nothing stops the pool before")
    c.rule("every", "one task is posted for every image, to a pool that has at least one thread")
    prog = c.prog
    others = [f["name"] for f in c.fns() if f.get("body") and any(
        n["k"] == "ctor" and bare(n["t"]) in ("std::thread", "std::jthread") or n["k"] == "call" and n["f"] == "std::async"
        for n in nodes(f["body"]))]
    for f in others:
        c.und("join", prog.fn(f), "threads other than a pool's are started here")
    posts = [f for f in c.fns() if f.get("body") and any(n["k"] == "call" and n["f"] in POSTS for n in nodes(f["body"]))]
    owners = [f for f in c.fns() if f.get("body") and any(n["k"] == "var" and bare(n["t"]) == POOL for n in nodes(f["body"]))]
    if not posts and not others:
        f = prog.fn("McCalib::Calibration::detectBoards") if c.has("McCalib::Calibration::detectBoards") else c.fns()[0]
        for r in ("lock", "join", "every"):
            c.ok(r, f, "no task is given to another thread")
    seen = set()
    for fn in owners:
        found = []
        it = Interp(prog, opaque=[], record_reads=True, nolog=False,
                    hooks={"call": [poster(found)], "localwrites": True, "varreads": True}).run(fn)
        c.funcs |= {prog.fns[u]["name"] for u in it.inlined if u in prog.fns} | {fn["name"]}
        c.events += len(it.events)
        seen |= {e.fn["name"] for e in found}
        if found:
            one(c, prog, fn, it, found)
    for f in posts:
        if f["name"] not in seen:
            c.und("join", f, "the pool that is posted to is made elsewhere")
    return "other", ("Lock-set analysis of the tasks posted to thread pools (%d task bodies), interpreted with all calls inlined; order of "
                     "posts, join and shared accesses in the poster." % len(posts))


def one(c, prog, fn, it, found):
    M = Memory(prog, it, fn.get("cls"))
    posts = [e for e in it.events if e.kind == "post"]
    keys = {e.key for e in posts}
    work = [e for e in it.events if any(x[0] == "w" for x in e.ctx)]
    mine = [e for e in it.events if not any(x[0] == "w" for x in e.ctx)]
    outer = frozenset().union(*(e.outer for e in posts))
    first = min(e.seq for e in posts)
    for e in posts:
        if not e.known:
            c.und("lock", e, "the task posted is not understood: %s" % show(e.task)[:80])
    many = len(posts) > 1 or any(e.loops() for e in posts)
    held = holders(work)
    # ---- accesses of the tasks
    acc = {}
    published = set()
    for e in work:
        for l, rw in cells(e, M):
            if not isinstance(l, Term) or M.sync(l):
                continue
            if not M.shared(l, outer, published):
                continue
            for t in M.toks(l):
                acc.setdefault(t, []).append((rw, e, l, held[id(e)]))
        if any(M.shared(l, outer, published) for l, rw in cells(e, M) if rw == "w" and isinstance(l, Term)):
            published.update(publishes(e))
        if e.kind == "call" and e.f in HIDDEN:
            ms = [x for x in held[id(e)] if M.shared(x.mutex, outer, ())]
            c.judge(bool(ms), "lock", "%s in %s" % (e.f, e.fn["name"]), e, "%s is called with the lock held" % e.f,
                    "tasks call %s, which keeps state common to all threads, without a lock" % e.f)
    keysof = {L.key for e in posts for L in e.loops()}
    written = {t for t, a in acc.items() if any(x[0] == "w" for x in a)}
    for t in sorted(written, key=str):
        a = acc[t]
        if not many:
            continue
        ws = [x for x in a if x[0] == "w"]
        if all(x[2].op == "elem" and any(contains(x[2].a[1], k) for k in keysof if k is not None) and
               not bare(M.type(x[2].a[0]) or "std::map<").startswith("std::map<") for x in a):
            c.und("lock", ws[0][1], "%s: each task writes the element of its own number" % name(t))
            continue
        if t[0] == "?":
            good = [x for x in a if not x[3]]
            for x in good[:1]:
                c.und("lock", x[1], "%s of an object whose type is not known" % t[1])
            if good:
                continue
        sets = []
        for rw, e, l, ls in a:
            sets.append({x.mutex for x in ls if x.sure and not (x.shared and rw == "w") and M.shared(x.mutex, outer, ())
                         and not any(contains(x.mutex, k) for k in keysof if isinstance(k, Term))})
        common = set.intersection(*sets)
        if common:
            c.ok("lock", ws[0][1], "%s: %d accesses, all with %s held" % (name(t), len(a), show(sorted(common, key=str)[0])))
            continue
        bad = [x for x, s in zip(a, sets) if not s]
        x = (bad or a)[0]
        c.bad("lock", "%s %s" % (name(t), x[1].fn["name"]), x[1],
              "%s is modified by detection tasks (%s) and %s here %s" % (
                  name(t), ws[0][1].where(prog), "read" if x[0] == "r" else "modified",
                  "without the lock that protects it" if not x[3] else "under a lock that was only tried" if any(not y.sure for y in x[3]) else "under a lock that does not protect it from the other tasks"))
    n = len([t for t in acc if t not in written])
    if n:
        c.ok("lock", posts[0], "%d shared objects are only read by the tasks" % n)
    # ---- check and act in one section
    tests = [(e, held[id(e)]) for e in work if e.kind == "test"]
    for e in work:
        for l, rw in cells(e, M):
            if rw != "w" or not isinstance(l, Term) or not M.toks(l) & written or not held[id(e)]:
                continue
            here = {x.uid for x in held[id(e)]}
            for g in e.guards():
                for x in subterms(g):
                    if x.op != "in" or not M.toks(x.a[0]) & written or not M.shared(x.a[0], outer, ()):
                        continue
                    ts = [ls for t, ls in tests if t.cont is x.a[0] and t.seq < e.seq and ls]
                    if ts:
                        c.judge(any({y.uid for y in ls} & here for ls in ts), "section",
                                "%s %s" % (name(sorted(M.toks(l), key=str)[0]), e.fn["name"]), e,
                                "looked up and recorded in one critical section",
                                "%s was looked up in an earlier critical section: another task may have changed it since" % show(x)[:60])
    # ---- variables of the poster
    for e in posts:
        src = [f for f in c.fns() if f.get("body") and any(n is e.d["expr"] for n in nodes(f["body"]))]
        for nm, vid in e.refs:
            L = inloop(src[0], e.d["expr"], vid) if src else None
            joined = L is not None and any(n["k"] == "call" and n["f"] in JOIN for n in nodes(L))
            if joined:
                c.und("owner", e, "%s is shared, joined in the same pass" % nm)
                continue
            c.judge(L is None, "owner", "%s %s" % (fn["name"], nm), e, "%s outlives the tasks" % nm,
                    "the task refers to %s, which the posting loop changes or ends before the task has run" % nm)
        if e.known and not e.refs:
            c.ok("owner", e, "the task has copies of what it needs")
    # ---- join
    pools = {pool(e.d["pool"]) for e in posts}
    joins = [e for e in mine if e.kind == "call" and e.f in JOIN and isinstance(e.d.get("o"), Term)]
    stops = [e for e in mine if e.kind == "call" and e.f in STOP and isinstance(e.d.get("o"), Term)]
    for p in pools:
        ps = [e for e in posts if pool(e.d["pool"]) is p]
        last = max(e.seq for e in ps)
        lw = max([last] + [x.seq for x in it.events if x.kind == "endpost" and x.key in {e.key for e in ps}])
        js = [e for e in joins if pool(e.o) is p]
        after = [e for e in js if e.seq > lw]
        if not after:
            early = [e for e in js if e.seq < first]
            c.bad("join", "%s no join" % fn["name"], early[0] if early else ps[0],
                  "the pool is not joined after the last task is posted: the pool's destructor drops the tasks that are still waiting")
            continue
        j = after[0]
        pl = [x.uid for x in ps[-1].loops()]
        mk_ = [e for e in mine if e.kind == "ctor" and bare(e.t) == POOL]
        own = {x.uid for x in mk_[-1].loops()} if mk_ else set()
        for x in j.loops():
            if x.uid in pl and x.uid not in own:
                c.bad("join", "%s join in loop" % fn["name"], j,
                      "the pool is joined inside the loop that posts: tasks posted to it afterwards never run")
                break
        pg = set(ps[-1].guards())
        odd = [g for g in j.guards() if g not in pg and not benign_guard(g) and not any(contains(g, L.term()) for L in ps[-1].loops())]
        broke = {id(g) for g in odd if any(getattr(L, "has_break", False) for e in mine if e.kind == "loop" for L in [e.d["loop"]]
                                           if L.key is not None and isinstance(L.key, Term) and contains(g, L.key))}
        odd = [g for g in odd if id(g) not in broke]
        c.judge(not odd, "join", "%s join condition" % fn["name"], j, "every way from the posts leads through join()",
                "the pool is joined only if %s" % (show(odd[0])[:80] if odd else ""))
        for s in stops:
            if pool(s.o) is p and s.seq < j.seq:
                c.bad("join", "%s stop" % fn["name"], s, "the pool is stopped before its tasks have run")
        # region in which tasks may be running
        start = min(e.seq for e in ps)
        ls = [x for x in ps[0].loops() if x.uid not in {y.uid for y in j.loops()}]
        if ls:
            o = [e.seq for e in mine if e.kind == "loop" and e.d["loop"].uid == ls[0].uid]
            start = min([start] + o)
        region = [e for e in mine if start <= e.seq < j.seq]
        for e in region:
            if e.kind == "ret" and e.fn is fn:
                c.bad("join", "%s return" % fn["name"], e,
                      "%s may return here without waiting for its tasks: those still waiting are dropped" % fn["name"].split("::")[-1])
        mheld = holders(mine)
        nr = 0
        for e in region:
            for l, rw in cells(e, M):
                if not isinstance(l, Term) or M.sync(l) or e.kind == "lwrite" and not e.loops() and e.seq < first:
                    continue
                for t in M.toks(l):
                    hit = [x for x in acc.get(t, ()) if rw == "w" or x[0] == "w"]
                    if not hit:
                        continue
                    nr += 1
                    ms = {x.mutex for x in mheld[id(e)] if x.sure}
                    if all(ms & {y.mutex for y in x[3]} for x in hit):
                        continue
                    c.bad("join", "%s %s" % (name(t), e.fn["name"]), e,
                          "%s is %s while detection tasks that %s it may be running" % (
                              name(t), "read" if rw == "r" else "modified", "modify" if hit[0][0] == "w" else "read"))
        c.ok("join", j, "nothing the tasks share is touched between the first post and join() (%d events)" % len(region))
        # threads
        for m in mk_:
            if not m.d.get("args"):
                continue
            r = positive(m.args[0])
            c.judge(r, "every", "%s threads" % fn["name"], m, "the pool has at least one thread",
                    "the pool may be made with no thread (%s): join() then drops every task" % show(m.args[0])[:60])
        # one task per image
        for e in ps:
            full = None
            for L in e.loops()[-1:]:
                full = loop_full(L)
                if L.kind in ("each", "range") and L.has_break:
                    full = False
            if not e.loops():
                full = None
            c.judge(full, "every", "%s loop" % fn["name"], e, "a task for every image",
                    "the loop that posts the tasks leaves images out")
            odd = [g for g in e.guards() if any(isinstance(L.key, Term) and contains(g, L.key) for L in e.loops()) and g.op != "opaque"]
            if odd:
                c.bad("every", "%s condition" % fn["name"], e, "images for which %s fails are not processed" % show(odd[0])[:80])


def pool(l):
    while l.op in ("lam", "agg"):
        l = l.a[1] if l.op == "lam" else l.a[0]
    if l.op == "out":
        return pool(l.a[2])
    return l
