"""Definite assignment of numbers, fixed-size arrays, matrix cells and fields.

An abstract execution of a function's tree over a three-valued state: a cell is unassigned on every path reaching
a point (N), on some path only (M, with the reasons), or assigned (absent).  Calls with reference or pointer
arguments are followed into the functions of the program.
"""
import re

SCALAR = re.compile(r"^((unsigned|signed|long|short) )*(int|float|double|bool|char|long|short|unsigned|size_t|"
                    r"(std::)?u?int\d+_t|enum .*)$")
ARR = re.compile(r"^std::array<(.*), (\d+)>$|^(.*?) ?\[(\d+)\]$")
UNINIT = (["int", "int", "int"], ["cv::Size", "int"], ["cv::Size_<int>", "int"], ["cv::MatSize", "int"])
NOREAD = ("size", "empty", "type", "channels", "total", "dims", "depth", "elemSize", "elemSize1", "isContinuous",
          "checkVector", "step1")
FORWARD = ("make_shared", "make_unique", "make_pair", "make_tuple", "emplace", "emplace_back", "push_back", "insert",
           "try_emplace", "insert_or_assign", "max", "min", "swap", "forward", "move", "bind")
MAXCELLS = 16


def plain(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ("const ", "volatile ", "mutable "):
            if t.startswith(p):
                t, ch = t[len(p):], True
    return t[:-6] if t.endswith(" const") else t


def scalar(t):
    t = plain(t)
    return bool(SCALAR.match(t)) or t.endswith("*")


def number(t):
    """number of cells of a number or a fixed-size array of numbers; None for anything else"""
    t = plain(t)
    if scalar(t):
        return 1
    m = ARR.match(t)
    if m:
        e, n = (m.group(1), m.group(2)) if m.group(1) else (m.group(3), m.group(4))
        c = number(e)
        if c:
            return c * int(n)
    return None


def ismat(t):
    t = plain(t).rstrip("&").strip()
    return t == "cv::Mat" or t.startswith("cv::Mat_<")


def bare(e):
    while isinstance(e, dict) and e.get("k") == "cast":
        e = e["e"]
    return e


def raw(e):
    """a matrix made without a value: (rows, cols) or (None, None); False otherwise"""
    e = bare(e)
    if not isinstance(e, dict) or e.get("k") != "ctor":
        return False
    t = plain(e["t"])
    if not ismat(t):
        return False
    if e.get("cp") in ("copy", "move") or len(e["a"]) == 1 and ismat(e["pt"][0]):
        return raw(e["a"][0])
    pt = [plain(x).rstrip("&").strip() for x in e["pt"]]
    if t == "cv::Mat" and (pt in [list(x) for x in UNINIT]) or t != "cv::Mat" and pt in (["int", "int"], ["cv::Size"], ["cv::Size_<int>"]):
        if pt[0] == "int":
            return dims(e["a"])
        return None, None
    return False


def dims(a):
    """rows and columns where they are literals"""
    v = [bare(x) for x in a[:2]]
    return tuple(x["v"] if isinstance(x, dict) and x.get("k") == "int" else None for x in v)


def size(r):
    """(number of cells told apart, columns): all cells of a matrix of known size, else its rows or its columns"""
    if r[0] is not None and r[1] is not None:
        return r[0] * r[1], r[1]
    if r[0] is not None:
        return r[0], "rows"
    if r[1] is not None:
        return r[1], "cols"
    return None, None


class Info:
    def __init__(self, kind, n, cols, name, depth):
        self.kind, self.n, self.cols, self.name, self.depth = kind, n, cols, name, depth


class Flow:
    """run over one function; .reads: [(base, cell, 'N'|'M', reasons, separable, line)], .exits: [(state, line)]"""

    def __init__(self, P, fn, memo=None, level=0):
        self.P, self.fn, self.memo, self.level = P, fn, memo if memo is not None else {}, level
        self.info = {}          # base -> Info
        self.alias = {}         # variable id -> (base, cell)
        self.reads = []
        self.exits = []
        self.guards = []
        self.silent = 0
        self.brk = []
        self.decls = []         # bases met without a value (obligations)
        self.used = set()
        self.comma = []         # matrices written with <<: (cells, values, line)

    # ------------------------------------------------------------- tracking
    def track(self, st, base, kind, n, cols, name):
        self.info[base] = Info(kind, n, cols, name, len(self.guards))
        if not self.silent:
            self.decls.append((base, name))
        for c in self.cells(base):
            st[(base, c)] = ("N", frozenset())

    def cells(self, base):
        i = self.info[base]
        if i.kind == "rec":
            return list(i.n)
        if i.n is not None and 1 < i.n <= MAXCELLS:
            return list(range(i.n))
        return ["*"]

    def untrack(self, base):
        self.info.pop(base, None)

    def write(self, st, base, cell):
        if base not in self.info:
            return
        cs = self.cells(base)
        if cell in cs and cell is not None:
            st.pop((base, cell), None)
        else:
            for c in cs:
                st.pop((base, c), None)

    def forget(self, st, base):
        """no value any more"""
        for c in self.cells(base):
            st[(base, c)] = ("N", frozenset())

    def read(self, st, base, cell, line):
        if base not in self.info or self.silent:
            return
        i = self.info[base]
        self.used.add(base)
        cs = self.cells(base)
        if cell in cs and cell is not None:
            hit = [(cell, st.get((base, cell)))]
        elif cell == "?":                    # some cell
            hit = [(c, st.get((base, c))) for c in cs]
            if any(h is None or h[0] != "N" for c, h in hit):
                return
        else:
            if i.kind in ("rec", "empty"):
                return
            hit = [(c, st.get((base, c))) for c in cs]
        for c, h in sorted((x for x in hit if x[1]), key=lambda x: x[1][0] != "N"):
            s, why = h
            sep = s == "N" or ("soft" not in {w[0] for w in why} and all(w[1] == tuple(self.guards) for w in why))
            self.reads.append((base, c, s, why, sep, line))
            return

    # ---------------------------------------------------------- expressions
    def loc(self, e):
        """(base, cell) of an expression that denotes something tracked; cell None: whole, '?': some cell"""
        e = bare(e)
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        if k == "ref":
            if "g" in e:
                return None
            i = e["id"]
            if i in self.alias:
                return self.alias[i]
            return (("v", i), None) if ("v", i) in self.info else None
        if k == "mem":
            o = bare(e["o"]) if e.get("o") else None
            if isinstance(o, dict) and o.get("k") == "this":
                b = ("f", e["n"])
                return (b, None) if b in self.info else None
            if isinstance(o, dict) and o.get("k") == "un" and o.get("op") in ("*", "->"):
                o = bare(o["e"])
            l = self.loc(o)
            if l and l[0] in self.info and self.info[l[0]].kind == "rec" and l[1] is None:
                return (l[0], e["n"]) if e["n"] in self.info[l[0]].n else None
            return None
        if k == "un" and e.get("op") in ("*",):
            l = self.loc(e["e"])
            return (l[0], 0) if l and self.info[l[0]].kind == "arr" and l[1] is None else None
        if k == "un" and e.get("op") == "&":
            return self.loc(e["e"])
        if k == "idx":
            return self.sub(self.loc(e["a"]), [e["i"]])
        if k == "call":
            f = e["f"].split("::")[-1]
            if e.get("o") and f in ("operator[]", "at", "operator()") and e["f"].startswith(("std::array", "cv::Mat")):
                l = self.loc(e["o"])
                if l and f == "operator()" and not (e["pt"] and plain(e["pt"][0]) == "int"):
                    return None
                return self.sub(l, e["a"])
            if f in ("begin", "end", "data") and e.get("o") and e["f"].startswith("std::array"):
                return self.loc(e["o"])
            if f in ("operator->", "operator*", "get") and e.get("o") and "_ptr" in e["f"]:
                return self.loc(e["o"])
            if f in ("move", "forward", "ref") and len(e["a"]) == 1:
                return self.loc(e["a"][0])
        if k == "ctor" and e["t"].split("::")[-1] in ("_InputArray", "_OutputArray", "_InputOutputArray", "MatExpr") and len(e["a"]) == 1:
            return self.loc(e["a"][0])
        return None

    def sub(self, l, ix):
        if not l:
            return None
        b, c = l
        if c is not None:
            return (b, "?") if c == "?" else None
        i = self.info[b]
        if i.kind == "num":
            return None
        v = [bare(x) for x in ix]
        if i.cols in ("rows", "cols"):
            x = v[0 if i.cols == "rows" else 1] if len(v) == 2 else {}
            return b, (x["v"] if x.get("k") == "int" and x["v"] < i.n and 1 < i.n <= MAXCELLS else "?")
        if all(x.get("k") == "int" for x in v):
            n = v[0]["v"] if len(v) == 1 else v[0]["v"] * i.cols + v[1]["v"] if len(v) == 2 and i.cols else None
            if n is not None and i.n is not None and n < i.n:
                return b, (n if i.n > 1 and i.n <= MAXCELLS else "?" if i.n > 1 else "*")
        return b, "?"

    def ev(self, e, st):
        """evaluate for its value"""
        if isinstance(e, list):
            for x in e:
                self.ev(x, st)
            return
        if not isinstance(e, dict):
            return
        k = e.get("k")
        l = self.loc(e) if k in ("ref", "mem", "idx", "call", "un", "ctor") else None
        if l and not (k == "un" and e.get("op") == "&"):
            self.indices(e, st)
            self.read(st, l[0], l[1], e.get("l", 0))
            return
        if k == "bin":
            op = e["op"]
            if op in ("&&", "||"):
                self.ev(e["a"], st)
                s2 = dict(st)
                self.guards.append(("c", id(e)))
                self.ev(e["b"], s2)
                self.guards.pop()
                self.into(st, self.join(st, s2, self.reason("if", e["a"])))
                return
            if op == "=":
                self.ev(e["b"], st)
                self.put(e["a"], st, e["b"])
                return
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                self.ev(e["b"], st)
                self.ev(e["a"], st)
                self.put(e["a"], st)
                return
            self.ev(e["a"], st)
            self.ev(e["b"], st)
            return
        if k == "un":
            x = e["e"]
            if e["op"] in ("++", "--", "post++", "post--", "pre++", "pre--"):
                self.ev(x, st)
                self.put(x, st)
                return
            if e["op"] == "&" and self.loc(x):
                self.put(x, st)            # the address escapes
                return
            self.ev(x, st)
            return
        if k == "cond":
            self.ev(e["c"], st)
            s1, s2 = dict(st), dict(st)
            self.guards.append(("c", id(e)))
            self.ev(e["a"], s1)
            self.guards[-1] = ("c", id(e), 1)
            self.ev(e["b"], s2)
            self.guards.pop()
            self.into(st, self.join(s1, s2, self.reason("if", e["c"])))
            return
        if k == "lambda":
            for n in nodes(e.get("body")):
                if n.get("k") in ("bin", "un", "call") and n.get("op") not in (None,) or n.get("k") == "call":
                    for x in self.written(n):
                        self.put(x, st)
            return
        if k == "call":
            self.call(e, st)
            return
        if k == "ctor":
            for x, p in zip(e["a"], list(e.get("pt") or []) + [""] * len(e["a"])):
                self.arg(x, p, st, e, None, None)
            return
        if k == "mem":
            o = bare(e.get("o"))
            if isinstance(o, dict) and self.loc(o) and self.info[self.loc(o)[0]].kind in ("mat", "empty"):
                return                      # rows, cols
            self.ev(e.get("o"), st)
            return
        if k == "throw":
            for v in e.values():
                if isinstance(v, (dict, list)):
                    self.ev(v, st)
            raise Thrown()
        for n, v in e.items():
            if isinstance(v, (dict, list)) and n not in ("t", "pt", "ta"):
                self.ev(v, st)

    def indices(self, e, st):
        e = bare(e)
        if isinstance(e, dict):
            if e.get("k") == "idx":
                self.ev(e["i"], st)
                self.indices(e["a"], st)
            elif e.get("k") == "call":
                self.ev(e["a"], st) if e.get("o") else None
                self.indices(e.get("o"), st)

    def written(self, n):
        if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            yield n["a"]
        elif n["k"] == "un" and ("++" in n["op"] or "--" in n["op"] or n["op"] == "&"):
            yield n["e"]
        elif n["k"] == "call":
            if n.get("o") and n.get("m") == "mut":
                yield n["o"]
            for x, p in zip(n["a"], n.get("pt") or []):
                if mutable(p):
                    yield x

    def put(self, e, st, val=None):
        """assignment to an expression"""
        l = self.loc(e)
        if l:
            self.indices(e, st)
            i = self.info.get(l[0])
            if val is not None and i and i.kind in ("mat", "empty") and l[1] is None:
                r = raw(val)
                if r is not False:
                    self.info[l[0]] = Info("mat", *size(r), i.name, i.depth)
                    for c in self.cells(l[0]):
                        st[(l[0], c)] = ("N", frozenset())
                    return
            self.write(st, *l)
            return
        e = bare(e)
        if isinstance(e, dict):
            if e.get("k") in ("mem",):
                self.ev(e.get("o"), st)
            elif e.get("k") == "idx":
                self.ev(e["a"], st)
                self.ev(e["i"], st)
            elif e.get("k") == "un":
                self.ev(e["e"], st)
            elif e.get("k") == "call":
                self.call(e, st)
            elif e.get("k") == "cond":
                for x in (e["a"], e["b"]):
                    self.put(x, st)
            elif e.get("k") not in ("ref", "this"):
                self.ev(e, st)

    def call(self, e, st):
        f = e["f"].split("::")[-1]
        if f in ("operator<<", "operator,") and "cv::MatCommaInitializer_" in str(e.get("t", "")):
            vals, x = 0, e
            while isinstance(x, dict) and x.get("k") == "call" and x["f"].split("::")[-1] in ("operator<<", "operator,"):
                o = x.get("o")
                self.ev(x["a"][-1], st)
                vals += 1
                x = bare(o if o is not None else x["a"][0])
            r = raw(x)
            if r is not False:
                if not self.silent:
                    n = r[0] * r[1] if r[0] is not None and r[1] is not None else None
                    self.comma.append((n, vals, e.get("l", 0)))
                return
        o = e.get("o")
        pt = list(e.get("pt") or [])
        pt += [""] * (len(e["a"]) - len(pt))
        callee = self.P.fns.get(e.get("u"))
        if o is not None:
            l = self.loc(o)
            i = self.info.get(l[0]) if l else None
            if l and i and i.kind in ("mat", "empty", "arr"):
                if f in ("operator=",) and e["a"]:
                    self.ev(e["a"], st)
                    self.put(o, st, e["a"][0])
                    return
                if f == "create" and l[1] is None:
                    self.ev(e["a"], st)
                    self.info[l[0]] = Info("mat", *size(dims(e["a"]) if len(e["a"]) == 3 else (None, None)), i.name, i.depth)
                    for c in self.cells(l[0]):
                        st[(l[0], c)] = ("N", frozenset())
                    self.decls.append((l[0], i.name)) if not self.silent else None
                    return
                if f in NOREAD:
                    return
                if e.get("m") == "mut" or f in ("row", "col", "rowRange", "colRange", "operator()", "diag", "reshape",
                                                "ptr", "begin", "end", "data", "at", "forEach", "setTo"):
                    self.write(st, *l)         # a view on it: what happens through it is not followed
                else:
                    self.read(st, l[0], l[1], e.get("l", 0))
            elif l and i and i.kind == "rec":
                if e.get("m") != "const":
                    self.write(st, l[0], None)
            elif isinstance(bare(o), dict) and bare(o).get("k") == "this" and callee:
                self.inner(callee, e, st)
                return
            else:
                self.ev(o, st)
        for n, x in enumerate(e["a"]):
            self.arg(x, pt[n], st, e, callee, n)
        if f in ("exit", "abort", "terminate"):
            raise Thrown()

    def inner(self, callee, e, st):
        """a method of the same object: its fields are followed too"""
        fields = [b for b in self.info if b[0] == "f"]
        pend = {k: v for k, v in st.items() if k[0][0] == "f"}
        pt = list(e.get("pt") or []) + [""] * len(e["a"])
        for n, x in enumerate(e["a"]):
            self.arg(x, pt[n], st, e, callee, n)
        if not pend or self.level > 4:
            return
        fl = Flow(self.P, callee, self.memo, self.level + 1)
        for b in fields:
            fl.info[b] = self.info[b]
        out = fl.run(dict(pend))
        for k in pend:
            v = out.get(k) if out is not None else None
            if v is None:
                st.pop(k, None)
            else:
                st[k] = v if v[0] == "N" else ("M", frozenset((w[0] if w[0] == "soft" else "callee", tuple(self.guards)) for w in v[1]))
        if not self.silent:
            self.reads.extend(r for r in fl.reads if r[0][0] == "f")

    def arg(self, x, p, st, e, callee, n):
        l = self.loc(x)
        name = e.get("f", "").split("::")[-1]
        p = p.strip()
        if isinstance(bare(x), dict) and bare(x).get("k") == "ctor" and bare(x)["t"].split("::")[-1].startswith("_"):
            p = "const " + bare(x)["t"] + " &"
        if not l:
            if raw(x) is not False and not self.silent and "OutputArray" not in p:
                self.temp(x, e)
            self.ev(x, st)
            return
        i = self.info.get(l[0])
        self.indices(x, st)
        if "_OutputArray" in p:
            self.write(st, *l)
        elif "_InputOutputArray" in p:
            self.write(st, *l)                  # whether it is read first depends on the function's options
        elif mutable(p) and name not in FORWARD or p.endswith("*") and not p.startswith("const") and i and i.kind == "arr" \
                or isinstance(bare(x), dict) and bare(x).get("k") == "un" and bare(x).get("op") == "&" and not p.startswith("const"):
            if callee is not None and n is not None and n < len(callee["params"]) and i and i.kind != "rec" and l[1] in (None, "*") \
                    and self.level <= 4:
                self.into_callee(callee, n, l, st, e)
            else:
                self.write(st, *l)
        elif p.endswith("*") and i and i.kind == "num" and plain(self.typeof(x)).endswith("*") is False:
            self.write(st, *l)
        else:
            self.read(st, l[0], l[1], e.get("l", 0))

    def typeof(self, x):
        return str(bare(x).get("t", "")) if isinstance(bare(x), dict) else ""

    def into_callee(self, callee, n, l, st, e):
        i = self.info[l[0]]
        key = (callee["u"], n, i.kind, i.n, i.cols)
        if key not in self.memo:
            self.memo[key] = (None, [])          # recursion: taken as assigned
            fl = Flow(self.P, callee, self.memo, self.level + 1)
            p = callee["params"][n]
            b = ("v", p["id"])
            s0 = {}
            fl.track(s0, b, i.kind, i.n, i.cols, p["n"])
            out = fl.run(s0)
            left = {}
            for (bb, c), v in (out or {}).items():
                if bb == b:
                    left[c] = v
            self.memo[key] = (left, [(r[1], r[2], r[3], r[4], r[5]) for r in fl.reads if r[0] == b])
        left, rd = self.memo[key]
        if left is None:
            self.write(st, *l)
            return
        now = {c: st.get((l[0], c)) for c in self.cells(l[0])}
        for c, s, why, sep, line in rd:
            h = now.get(c, now.get("*"))
            if h is not None and not self.silent:
                w = frozenset((x[0] if x[0] == "soft" else "callee", tuple(self.guards)) for x in why) | h[1]
                s2 = "N" if s == "N" and h[0] == "N" else "M"
                sp = s2 == "N" or sep and "soft" not in {x[0] for x in w}
                self.reads.append((l[0], c, s2, w, sp, e.get("l", 0)))
                break
        for c in self.cells(l[0]):
            h = now.get(c)
            if h is None:
                continue
            v = left.get(c)
            if v is None:
                st.pop((l[0], c), None)
            elif v[0] == "M":
                st[(l[0], c)] = ("M", h[1] | frozenset((w[0] if w[0] == "soft" else "callee", tuple(self.guards)) for w in v[1]))

    def temp(self, x, e):
        self.reads.append((("t", bare(x).get("l", 0)), "*", "T", frozenset(), e.get("k") == "ret" or "_InputArray" in str(e.get("t", "")), bare(x).get("l", 0)))

    # ----------------------------------------------------------- statements
    def reason(self, kind, cond):
        return ("soft" if kind == "if" and enumlike(cond) else kind, tuple(self.guards))

    def join(self, a, b, why):
        if a is None:
            return self.cut(b)
        if b is None:
            return self.cut(a)
        r = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x and y:
                r[k] = ("N", frozenset()) if x[0] == y[0] == "N" else ("M", x[1] | y[1] | (frozenset([why]) if x[0] != y[0] else frozenset()))
            else:
                z = x or y
                r[k] = ("M", z[1] | frozenset([why]))
        return r

    def cut(self, s):
        """a path left: what is open on some path may have left with it"""
        if s is None:
            return None
        return {k: (v[0], v[1] | frozenset([("soft", ())])) if v[0] == "M" else v for k, v in s.items()}

    def into(self, st, new):
        st.clear()
        st.update(new)

    def decl(self, d, st):
        t = d.get("t", "")
        b = ("v", d["id"])
        init = d.get("init")
        if d.get("static"):
            return
        if t.rstrip().endswith("&") and isinstance(init, dict):
            l = self.loc(init)
            if l:
                self.indices(init, st)
                self.alias[d["id"]] = l
                return
            if self.rectype(t):
                self.ev(init, st)
                self.rec(st, b, t, d["n"])
                return
        if init is None:
            n = number(t)
            if n:
                self.track(st, b, "num" if n == 1 and not ARR.match(plain(t)) else "arr", n, None, d["n"])
            return
        i = bare(init)
        if i.get("k") == "ctor" and i.get("cp") == "default" or i.get("k") == "ctor" and not i["a"]:
            n = number(t)
            if n:
                self.track(st, b, "arr", n, None, d["n"])
                return
            if ismat(t):
                self.track(st, b, "empty", None, None, d["n"])
                return
            if self.rectype(t):
                self.rec(st, b, t, d["n"])
                return
        if ismat(t):
            r = raw(init)
            if r is not False:
                for x in bare(init).get("a", []):
                    self.ev(x, st)
                self.track(st, b, "mat", *size(r), d["n"])
                return
        self.ev(init, st)
        st_keys = [k for k in st if k[0] == b]
        for k in st_keys:
            st.pop(k)
        if self.rectype(t):
            self.rec(st, b, t, d["n"])

    open_fields = {}        # record -> fields some constructor leaves open (set by the check)

    def rectype(self, t):
        t = plain(t)
        m = re.match(r"^(?:std::(?:shared_ptr|unique_ptr|weak_ptr)<)?([\w:]+?)(?:>)?\s*[&*]?$", t)
        return m.group(1) if m and self.open_fields.get(m.group(1)) else None

    def rec(self, st, b, t, name):
        f = self.open_fields[self.rectype(t)]
        self.info[b] = Info("rec", tuple(sorted(f)), None, name, len(self.guards))
        for c in self.cells(b):
            st[(b, c)] = ("N", frozenset())

    def stmt(self, s, st):
        """state after the statement, None when it does not complete"""
        if s is None or st is None:
            return st
        try:
            return self.stmt1(s, st)
        except Thrown:
            return None

    def stmt1(self, s, st):
        k = s.get("k")
        if k == "block":
            for x in s["s"]:
                st = self.stmt(x, st)
                if st is None:
                    return None
            return st
        if k == "decls":
            for d in s["d"]:
                if d.get("k") == "var":
                    self.decl(d, st)
            return st
        if k == "expr":
            self.ev(s["e"], st)
            return st
        if k == "if":
            st = self.stmt(s.get("init"), st)
            if s.get("cv"):
                self.decl(s["cv"], st)
            self.ev(s["c"], st)
            why = self.reason("if", s["c"])
            s1, s2 = dict(st), dict(st)
            self.guards.append(("c", id(s), 0))
            s1 = self.stmt(s["a"], s1)
            self.guards[-1] = ("c", id(s), 1)
            s2 = self.stmt(s.get("b"), s2)
            self.guards.pop()
            c = bare(s["c"])
            if c.get("k") == "bool":
                return s1 if c["v"] else s2
            return self.join(s1, s2, why)
        if k in ("for", "while", "do", "rfor"):
            return self.loop(s, st)
        if k == "ret":
            if s.get("e") is not None:
                if raw(s["e"]) is not False and not self.silent:
                    self.temp(s["e"], s)
                l = self.loc(s["e"])
                if l and (self.fn.get("ret") or "").rstrip().endswith("&"):
                    self.write(st, *l)
                self.ev(s["e"], st)
            if not self.silent:
                self.exits.append((dict(st), s.get("l", 0)))
            return None
        if k in ("break", "cont"):
            if self.brk:
                self.brk[-1][k].append(dict(st))
            return None
        if k == "switch":
            self.ev(s["c"], st)
            for n in nodes(s["body"]):
                for x in self.written(n) if n["k"] in ("bin", "un", "call") else ():
                    l = self.loc(x)
                    if l:
                        self.soften(st, l)
            self.brk.append({"break": [], "cont": self.brk[-1]["cont"] if self.brk else []})
            self.silent += 1
            self.stmt(s["body"], dict(st))
            self.silent -= 1
            self.brk.pop()
            return st
        if k in ("case", "default", "label"):
            return self.stmt(s.get("body"), st)
        if k == "try":
            s1 = self.stmt(s["body"], dict(st))
            for h in s.get("h", []):
                s1 = self.join(s1, self.stmt(h, dict(st)), ("soft", ()))
            return s1
        if k in ("nop", "otherstmt"):
            return st
        if k == "goto":
            return None
        self.ev(s, st)
        return st

    def soften(self, st, l):
        self.write(st, *l)

    def loop(self, s, st):
        k = s["k"]
        once = k == "do"
        if k == "for":
            st = self.stmt(s.get("init"), st)
            if st is None:
                return None
            once = constloop(s)
        if k == "rfor":
            self.ev(s["range"], st)
            t = str(bare(s["range"]).get("t", "")) if isinstance(bare(s["range"]), dict) else ""
            once = bool(ARR.match(plain(t).rstrip("&").strip()))
            l = self.loc(s["range"])
            v = s["var"]
            if l and v and v.get("t", "").rstrip().endswith("&"):
                if mutable(v["t"]):
                    self.alias[v["id"]] = (l[0], None)     # every cell in turn
                else:
                    self.read(st, l[0], None, s.get("l", 0))
            elif l:
                self.read(st, l[0], None, s.get("l", 0))
        if s.get("cv"):
            self.decl(s["cv"], st)
        if k in ("for", "while") and s.get("c") is not None:
            self.ev(s["c"], st)
        elif k in ("for", "while"):
            once = True
        c = bare(s.get("c")) if s.get("c") else None
        if k == "while" and isinstance(c, dict) and (c.get("k") == "bool" and c["v"] or c.get("k") == "int" and c["v"]):
            once = True
        entry = dict(st)
        outer = tuple(self.guards)
        self.guards.append(("l", id(s)))

        def body(x):
            self.brk.append({"break": [], "cont": []})
            x = self.stmt(s["body"], x)
            b = self.brk.pop()
            for y in b["cont"]:
                x = y if x is None else self.join(x, y, ("soft", ()))
            if x is not None:
                if k == "for" and s.get("inc") is not None:
                    self.ev(s["inc"], x)
                if k == "do" and s.get("c") is not None:
                    self.ev(s["c"], x)
            return x, b["break"]
        self.silent += 1
        back, br = body(dict(entry))
        self.silent -= 1
        if back is None:
            head = entry
        else:
            head = {}
            for key, v in entry.items():
                w = back.get(key)
                if w is None:
                    head[key] = ("M", v[1] | frozenset([("loophead", tuple(self.guards))])) if v[0] == "N" else v
                else:
                    head[key] = v if v[0] == w[0] else ("M", v[1] | w[1] | frozenset([("loophead", tuple(self.guards))]))
        out, br = body(dict(head))
        # what the first iteration leaves open counts, not what the head may have been
        self.silent += 1
        first, br1 = body(dict(entry))
        self.silent -= 1
        self.guards.pop()
        res = first
        for y in br1:
            res = y if res is None else self.join(res, y, ("soft", ()))
        if once:
            return res
        if res is None:
            return self.cut(entry)
        return self.join(entry, res, ("loop", outer))

    def run(self, st):
        """state when the function returns normally"""
        for i in self.fn.get("inits") or []:
            if i.get("field") and ("f", i["field"]) in self.info:
                e = i.get("e")
                x = bare(e.get("e")) if isinstance(e, dict) and e.get("k") == "definit" else e
                b = ("f", i["field"])
                if isinstance(x, dict) and x.get("k") == "ctor" and (x.get("cp") == "default" or not x["a"]) and number(i.get("t", "")):
                    continue
                if self.info[b].kind == "mat" and raw(x) is not False:
                    continue
                self.ev(x, st)
                self.write(st, b, None)
            elif i.get("e") is not None:
                self.ev(i["e"], st)
        end = self.stmt(self.fn["body"], st)
        if end is not None:
            self.exits.append((end, self.fn["body"].get("e", 0) if isinstance(self.fn["body"], dict) else 0))
        r = None
        for x, _ in self.exits:
            if r is None:
                r = dict(x)
            else:
                r = self.join(r, x, ("exit", tuple(self.guards)))
        return r


class Thrown(Exception):
    pass


def mutable(p):
    p = p.strip()
    return p.endswith("&") and not p.startswith("const ") and not p.endswith("&&")


def nodes(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def enumlike(c):
    """a test of one of several codes (mode == 1), or of a flag"""
    c = bare(c)
    if not isinstance(c, dict):
        return True
    if c.get("k") == "bin" and c["op"] in ("==", "!="):
        return any(isinstance(bare(x), dict) and bare(x).get("k") in ("int", "bool", "str") and True for x in (c["a"], c["b"]))
    if c.get("k") == "bin" and c["op"] in ("&&", "||"):
        return enumlike(c["a"]) or enumlike(c["b"])
    if c.get("k") == "un" and c["op"] == "!":
        return enumlike(c["e"])
    if c.get("k") in ("ref", "mem"):
        return True
    if c.get("k") == "call" and ("operator bool" in c["f"] or c["f"].endswith("::lock")):
        return True
    return False


def constloop(s):
    """for (i = a; i < b; ...) with constants a < b"""
    i = s.get("init")
    v = None
    if isinstance(i, dict) and i.get("k") == "decls" and len(i["d"]) == 1:
        v = bare(i["d"][0].get("init"))
    c = bare(s.get("c"))
    if isinstance(v, dict) and v.get("k") == "int" and isinstance(c, dict) and c.get("k") == "bin":
        b = bare(c["b"])
        if isinstance(b, dict) and b.get("k") == "int":
            return {"<": v["v"] < b["v"], "<=": v["v"] <= b["v"], "!=": v["v"] != b["v"],
                    ">": v["v"] > b["v"], ">=": v["v"] >= b["v"]}.get(c["op"], False)
    return False
