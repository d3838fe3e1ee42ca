"""Linear effect trace of a function: reads and writes of class fields in
evaluation order, callees expanded, both branches of every condition walked.

It does not depend on where function boundaries lie: a helper extracted or
inlined leaves the trace as it was.
"""
from .core import walk
from .engine import bare, is_mutref

ACCESS = {"operator[]", "at", "begin", "end", "rbegin", "rend", "find", "data", "front", "back", "operator->", "operator*", "lock", "get",
          "cbegin", "cend", "operator bool", "reserve", "size", "empty", "count", "lower_bound", "upper_bound"}
FORWARD = ("std::make_", "std::forward", "std::move", "std::bind", "std::get", "std::min", "std::max", "std::find", "std::begin",
           "std::end", "std::tie", "std::ref", "std::distance", "std::accumulate", "std::set_intersection", "std::to_string",
           "std::inserter", "boost::log", "boost::asio::post")
ITERW = ("std::iota", "std::shuffle", "std::sort", "std::fill", "std::copy_n", "std::copy", "std::nth_element", "std::unique",
         "std::random_shuffle", "std::transform", "std::swap")


def strip(n):
    while isinstance(n, dict) and n.get("k") == "cast":
        n = n["e"]
    return n


def mode(a):
    for x in a[1:2]:
        x = strip(x)
        if x.get("k") == "int":
            return "write" if x.get("v", 0) & 3 else "read"
    return "?" if a else ""


def leaves(b):
    """the statement always leaves the function"""
    if not b:
        return False
    if b.get("k") in ("ret", "throw"):
        return True
    if b.get("k") == "block" and b["s"]:
        return leaves(b["s"][-1])
    return False


class Eff:
    __slots__ = ("rw", "tok", "fn", "line", "opt", "how", "path", "cond")

    def __init__(self, rw, tok, fn, line, opt=0, how="", path=(), cond=()):
        self.rw, self.tok, self.fn, self.line, self.opt, self.how, self.path, self.cond = rw, tok, fn, line, opt, how, path, cond

    @property
    def where(self):
        return "%s:%s (%s)" % (self.fn["file"].split("/repo/")[-1], self.line, " > ".join(list(self.path) + [self.fn["name"]]))

    def __repr__(self):
        return "%s %s.%s @%s:%s" % (self.rw, self.tok[0], self.tok[1], self.fn["name"].split("::")[-1], self.line)


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.stack = []

    # ------------------------------------------------------------- functions
    def trace(self, fn):
        r = self.memo.get(fn["u"])
        if r is None:
            if fn["u"] in self.stack:
                return []
            self.stack.append(fn["u"])
            w = W(self, fn)
            r = self.memo[fn["u"]] = w.run()
            self.stack.pop()
        return r

    def writes_self(self, fn):
        return any(e.rw == "W" and e.tok[0] == fn.get("cls") for e in self.trace(fn))


class W:
    def __init__(self, E, fn):
        self.E, self.fn = E, fn
        self.out = []
        self.alias = {}
        self.iters = set()
        self.locals = {}
        self.opt = 0
        self.cond = []
        self.nloop = 0
        for i, p in enumerate(fn["params"]):
            t = p["t"].rstrip()
            if t.endswith("&"):
                self.alias[p["id"]] = ("#p", i)

    def run(self):
        for i in self.fn.get("inits") or []:
            self.ex(i.get("e") or i.get("init") if isinstance(i, dict) else None)
        self.ex(self.fn["body"])
        return self.out

    def emit(self, rw, tok, n, how=""):
        if tok is not None:
            self.out.append(Eff(rw, tok, self.fn, n.get("l", 0), self.opt, how, (), tuple(self.cond)))

    # ----------------------------------------------------------------- roots
    def root(self, e):
        """field (or parameter) that an lvalue expression designates storage of"""
        x = strip(e)
        if isinstance(x, dict) and x.get("k") == "ref" and x["id"] in self.iters:
            return None
        while e is not None:
            k = e.get("k")
            if k == "mem":
                if e.get("c", "").startswith(("McCalib::", "Graph", "Reproj")) or e.get("c") in self.E.prog.records:
                    return (e["c"], e["n"])
                e = e["o"]
            elif k == "call" and "o" in e:
                b = e.get("f", "").split("::")[-1]
                o = strip(e["o"])
                if b in ("operator->", "operator*") and o.get("k") == "ref" and o["id"] in self.iters:
                    return self.alias.get(o["id"])
                if b.startswith("operator->") or b == "operator*" and "shared_ptr" in e.get("f", ""):
                    return None
                if b in ACCESS or b.startswith("operator[]"):
                    e = e["o"]
                else:
                    return None
            elif k == "idx":
                e = e["a"]
            elif k in ("cast",):
                e = e["e"]
            elif k == "un" and e.get("op") in ("&", "*"):
                e = e["e"]
            elif k == "ref":
                return self.alias.get(e["id"])
            elif k == "ctor" and e.get("cp") and len(e["a"]) == 1:
                e = e["a"][0]
            else:
                return None
        return None

    def whole(self, e):
        while e.get("k") == "cast" or e.get("k") == "un" and e["op"] == "*":
            e = e["e"]
        return "=" if e.get("k") in ("mem", "ref") else "[]="

    # ------------------------------------------------------------ expressions
    def ex(self, n):
        if n is None:
            return
        if isinstance(n, list):
            for x in n:
                self.ex(x)
            return
        k = n.get("k")
        f = getattr(self, "x_" + k, None) if k else None
        if f:
            return f(n)
        for key, v in n.items():
            if isinstance(v, (dict, list)):
                self.ex(v)

    def x_mem(self, n):
        self.ex(n["o"])
        t = self.root(n)
        if t and t == (n.get("c"), n["n"]):
            self.emit("R", t, n)

    def x_ref(self, n):
        t = self.alias.get(n["id"])
        if t and n["id"] not in self.iters:
            self.emit("R", t, n)

    def sub(self, n):
        """evaluate what is needed to designate n, without reading n itself"""
        m = len(self.out)
        self.ex(n)
        t = self.root(n)
        if t:
            for i in range(len(self.out) - 1, m - 1, -1):
                if self.out[i].tok == t and self.out[i].rw == "R":
                    del self.out[i]
                    break

    def x_bin(self, n):
        op = n["op"]
        if op == "=":
            self.ex(n["b"])
            self.sub(n["a"])
            self.emit("W", self.root(n["a"]), n, how=self.whole(n["a"]))
        elif op in ("+=", "-=", "*=", "/=", "|=", "&="):
            self.ex(n["b"])
            self.ex(n["a"])
            self.emit("W", self.root(n["a"]), n)
        else:
            self.ex(n["a"])
            self.ex(n["b"])

    def x_un(self, n):
        self.ex(n["e"])
        if "++" in n["op"] or "--" in n["op"]:
            self.emit("W", self.root(n["e"]), n)

    def x_decls(self, n):
        for d in n["d"]:
            self.x_var(d)

    def x_var(self, d):
        i = d.get("init")
        t = d["t"]
        if i is not None and t.replace("const ", "").strip() in ("bool", "int"):
            self.locals[d["id"]] = i
        if i is not None:
            self.ex(i)
            if t.rstrip().endswith("&") or "iterator" in t or t.rstrip().endswith("*"):
                r = self.root(i)
                if r:
                    self.alias[d["id"]] = r
                    if not t.rstrip().endswith("&"):
                        self.iters.add(d["id"])
        for b in d.get("bindings") or []:
            r = self.root(i) if i is not None else None
            if r and t.rstrip().endswith("&"):
                self.alias[b["id"]] = r

    def x_rfor(self, n):
        self.ex(n["range"])
        r = self.root(n["range"])
        v = n["var"]
        if r and v["t"].rstrip().endswith("&") and not v["t"].startswith("const "):
            self.alias[v["id"]] = r
        for b in v.get("bindings") or []:
            if r and v["t"].rstrip().endswith("&"):
                self.alias[b["id"]] = r
        self.nloop += 1
        self.ex(n["body"])
        self.nloop -= 1

    def x_if(self, n):
        self.ex(n.get("init"))
        self.ex(n["c"])
        self.opt += 1
        cc = self.config(n["c"])
        for br, b in ((True, n["a"]), (False, n.get("b"))):
            if cc:
                self.cond.append((cc[0], br == cc[1]))
            self.ex(b)
            if cc:
                self.cond.pop()
        self.opt -= 1
        if cc and not self.nloop:
            ra, rb = leaves(n["a"]), leaves(n.get("b"))
            if ra != rb:
                self.cond.append((cc[0], rb == cc[1]))

    def config(self, c):
        """(name of the condition, polarity) if it tests one scalar setting of the calibration"""
        pos = True
        while True:
            if c.get("k") == "un" and c["op"] == "!":
                c, pos = c["e"], not pos
            elif c.get("k") == "cast":
                c = c["e"]
            else:
                break
        op, val, f = "!=", 0, c
        if c.get("k") == "bin" and c["op"] in ("==", "!=", ">", "<", ">=", "<="):
            op, f, v = c["op"], strip(c["a"]), strip(c["b"])
            if f.get("k") == "int":
                f, v = v, f
                op = {">": "<", "<": ">", ">=": "<=", "<=": ">="}.get(op, op)
            if v.get("k") != "int" and v.get("k") != "bool":
                return None
            val = int(v.get("v", 0))
        f = strip(f)
        if f.get("k") == "ref":
            # a parameter, or a local that copies a setting
            for i, p in enumerate(self.fn["params"]):
                if p["id"] == f["id"]:
                    nm = ("#a", i) if (op, val) in ((">", 0), (">=", 1), ("==", 1), ("!=", 0), ("==", 0), ("<", 1), ("<=", 0), ("!=", 1)) else None
                    return (nm, pos == ((op, val) in ((">", 0), (">=", 1), ("==", 1), ("!=", 0)))) if nm else None
            i = self.locals.get(f["id"])
            if i is not None and op == "!=" and val == 0:
                r = self.config(i)
                return (r[0], r[1] == pos) if r else None
            return None
        if f.get("k") != "mem" or f.get("c") != "McCalib::Calibration" or f["n"] in ("nb_camera_", "nb_board_"):
            return None
        t = f.get("t", "")
        if (op, val) in ((">", 0), (">=", 1), ("==", 1), ("!=", 0)):
            return f["n"], pos
        if (op, val) in (("==", 0), ("<", 1), ("<=", 0), ("!=", 1)):
            return f["n"], not pos
        return "%s %s %s" % (f["n"], op, val), pos

    def x_for(self, n):
        self.ex(n.get("init"))
        self.nloop += 1
        self.ex(n.get("c"))
        self.ex(n.get("body"))
        self.ex(n.get("inc"))
        self.nloop -= 1

    def x_while(self, n):
        self.nloop += 1
        for key, v in n.items():
            if isinstance(v, (dict, list)):
                self.ex(v)
        self.nloop -= 1

    def x_mref(self, n):
        u = n.get("fu") or n.get("u")
        fn = self.E.prog.fns.get(u)
        if fn:
            self.splice(fn, [], n)

    x_fref = x_mref

    def x_ctor(self, n):
        for a in n["a"]:
            self.ex(a)
        self.out_args(n, n["a"], n.get("pt") or [], "ctor")
        if n.get("t", "").replace("class ", "") == "cv::FileStorage" and not n.get("cp"):
            self.emit("C", ("call", "cv::FileStorage"), n, how=mode(n["a"]))

    def out_args(self, n, args, pt, f):
        for a, p in zip(args, pt):
            p = p.strip()
            w = is_mutref(p) or "OutputArray" in p or p.endswith("*") and not p.startswith("const ") and "data" in str(a.get("f", ""))
            if w:
                self.emit("W", self.root(a), n, how=f)

    def x_call(self, n):
        f = n.get("f", "")
        b = f.split("::")[-1]
        u = n.get("fu") or n.get("u")
        fn = self.E.prog.fns.get(u)
        args = n.get("a") or []
        op = n.get("op")
        if fn is not None and not fn.get("implicit"):
            ws = bool(n.get("o")) and self.E.writes_self(fn)
            if n.get("o"):
                (self.sub if ws else self.ex)(n["o"])
            for a, p in zip(args, fn["params"]):
                (self.sub if is_mutref(p["t"]) else self.ex)(a)
            self.splice(fn, args, n)
            if ws:
                self.emit("W", self.root(n["o"]), n, how=b)
            return
        if op == "=" and ("o" in n or len(args) == 2):
            l, r = (n["o"], args[0]) if n.get("o") else (args[0], args[1])
            self.ex(r)
            self.sub(l)
            self.emit("W", self.root(l), n, how=self.whole(l))
            return
        if n.get("o"):
            base = b.split("<")[0]
            if n.get("m") == "mut" and base not in ACCESS and not base.startswith("operator[]") and self.root(n["o"]) and \
                    f.startswith(("std::", "cv::")):
                self.sub(n["o"])
                for a in args:
                    self.ex(a)
                self.emit("W", self.root(n["o"]), n, how=base)
            else:
                self.ex(n["o"])
                for a in args:
                    self.ex(a)
        else:
            for a in args:
                self.ex(a)
        if f == "ceres::Solve":
            # the parameter blocks get their values here
            done = set()
            for e in list(self.out):
                if e.tok == ("call", f):
                    done = set()
                elif e.rw == "W" and e.how == "AddResidualBlock" and e.tok not in done:
                    done.add(e.tok)
            for e in [x for x in self.out if x.rw == "W" and x.how == "AddResidualBlock"]:
                if e.tok in done:
                    done.discard(e.tok)
                    self.out.append(Eff("W", e.tok, self.fn, n.get("l", 0), self.opt, e.how, (), tuple(self.cond)))
        if f in ("ceres::Solve", "cv::FileStorage::open"):
            self.emit("C", ("call", f), n, how=mode(args) if "FileStorage" in f else "")
        if f.startswith(ITERW):
            for a in args:
                if a.get("k") == "call" and a.get("f", "").split("::")[-1] in ("begin", "data", "end"):
                    self.emit("W", self.root(a), n, how=b)
        if f.startswith("boost::"):
            if f.startswith(("boost::add_", "boost::remove_", "boost::clear_")):
                self.emit("W", self.root(args[-1]), n, how=b)
            elif n.get("o") and n.get("m") == "mut" and b.startswith(("clear", "swap", "add_", "remove_")):
                self.emit("W", self.root(n["o"]), n, how=b)
        elif not f.startswith(FORWARD) and "emplace" not in b:
            self.out_args(n, args, n.get("pt") or [], b)

    def bindc(self, cond, args):
        r = []
        for nm, v in cond:
            if isinstance(nm, tuple):
                q = self.config(args[nm[1]]) if nm[1] < len(args) else None
                if q:
                    r.append((q[0], q[1] == v))
            else:
                r.append((nm, v))
        return tuple(r)

    def splice(self, fn, args, n):
        for e in self.E.trace(fn):
            t = e.tok
            if t[0] == "#p":
                if t[1] < len(args):
                    t = self.root(args[t[1]])
                else:
                    t = None
                if t is None:
                    continue
            self.out.append(Eff(e.rw, t, e.fn, e.line, e.opt + self.opt, e.how, (self.fn["name"],) + e.path[:6],
                                tuple(self.cond) + self.bindc(e.cond, args)))
