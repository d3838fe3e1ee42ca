"""C15: no computation reads an indeterminate value.

field   every number of a model object has a value once the object is constructed: an initialiser in the class,
        or every path of every constructor (early returns included) assigns it.
local   a local number, pointer, array or plain struct without initialiser is assigned before it is read, on
        every path; arguments passed by reference are followed into the functions of the program.
matrix  a cv::Mat made without a value has each of its cells written before its contents are read.
"""
from sa.core import *
from sa.assigned import Flow, number, ismat, raw, bare, plain, nodes, size


def classes(c):
    for n, r in sorted(c.prog.records.items()):
        if r.get("file", "").startswith(c.prog.repo if hasattr(c.prog, "repo") else "/") and not n.startswith(("std::", "cv::", "ceres::")):
            yield n, r


def ctors(c, cls):
    short = cls.split("::")[-1]
    for f in c.prog.fns.values():
        if f.get("ctor") and f["name"] == cls + "::" + short:
            if len(f["params"]) == 1 and cls in f["params"][0]["t"]:
                continue
            yield f


def fields(c):
    """(class, field) -> how a constructor leaves it: (status, reasons, constructor, line)"""
    open_ = {}
    for cls, r in classes(c):
        cs = list(ctors(c, cls))
        todo = []
        for f in r["fields"]:
            t = f["t"]
            if f.get("static"):
                continue
            n = number(t)
            if n:
                if f.get("ini") and not (isinstance(f.get("e"), dict) and bare(f["e"]).get("k") == "ctor" and bare(f["e"]).get("cp") == "default"):
                    c.ok("field", "%s:%s (%s)" % (c.prog.rel(r["file"]), f["l"], cls), "%s is initialised in the class" % f["n"])
                    continue
                todo.append((f, "num" if n == 1 else "arr", n, None))
            elif ismat(t):
                x = f.get("e")
                inits = [i.get("e") for k in cs for i in k.get("inits") or [] if i.get("field") == f["n"]]
                inits = [bare(i.get("e")) if isinstance(i, dict) and i.get("k") == "definit" else i for i in inits]
                rs = [raw(i) for i in inits + ([x] if x else [])]
                rs = [z for z in rs if z is not False]
                if rs:
                    todo.append((f, "mat", *size(rs[0])))
        if not todo:
            continue
        if not cs:
            for f, k, n, cols in todo:
                open_.setdefault((cls, f["n"]), []).append(("N", frozenset(), None, f))
            continue
        for k in cs:
            fl = Flow(c.prog, k)
            st = {}
            for f, kind, n, cols in todo:
                fl.track(st, ("f", f["n"]), kind, n, cols, f["n"])
            fl.run(st)
            for base, cell, s, why, sep, line in fl.reads:
                if base[0] == "f" and s == "N" and sep:
                    c.bad("field", "%s read in constructor" % base[1], "%s:%s (%s)" % (c.prog.rel(k["file"]), line, k["name"]),
                          "the constructor reads %s before anything gave it a value" % base[1])
            for f, kind, n, cols in todo:
                b = ("f", f["n"])
                worst = None
                for x, line in fl.exits:
                    for cell in fl.cells(b):
                        v = x.get((b, cell))
                        if v and (worst is None or v[0] == "N" and worst[0] == "M"):
                            worst = (v[0], v[1], k, f, line, cell)
                if worst:
                    open_.setdefault((cls, f["n"]), []).append(worst)
                else:
                    c.ok("field", k, "%s assigns %s on every path" % (k["name"], f["n"]))
    return open_


def run(c):
    c.rule("field", __doc__.split("\n\n")[1].split("local ")[0].strip())
    c.rule("local", "a local without initialiser is assigned on every path before it is read")
    c.rule("range", "a counting loop does not run past the end of the list it indexes")
    c.rule("matrix", "the cells of a matrix made without a value are written before they are read")
    op = fields(c)
    Flow.open_fields = {}
    for (cls, f) in op:
        Flow.open_fields.setdefault(cls, set()).add(f)
    memo = {}
    for fn in c.fns():
        if not fn.get("body"):
            continue
        fl = Flow(c.prog, fn, memo)
        st = {}
        for p in fn["params"]:
            if fl.rectype(p["t"]):
                fl.rec(st, ("v", p["id"]), p["t"], p["n"])
        fl.run(st)
        columns(c, fn)
        c.funcs.add(fn["name"])
        badb = set()
        for n, k, line in fl.comma:
            w = "%s:%s (%s)" % (c.prog.rel(fn["file"]), line, fn["name"])
            c.judge(None if n is None else n <= k, "matrix", "%s list of values" % fn["name"], w,
                    "a matrix of %s cells is given %d values" % (n, k))
        for base, cell, s, why, sep, line in fl.reads:
            w = "%s:%s (%s)" % (c.prog.rel(fn["file"]), line, fn["name"])
            i = fl.info.get(base)
            if base[0] == "t":
                c.judge(False if sep else None, "matrix", "%s temporary" % fn["name"], w, "a matrix made without a value is used")
                continue
            if base[0] == "f" or i is None:
                continue
            if i.kind == "rec":
                continue
            badb.add(base)
            rule = "matrix" if i.kind in ("mat", "empty") else "local"
            nm = i.name + ("" if cell == "*" else "[%s]" % cell)
            what = "%s is read %s" % (nm, "before anything assigns it" if s == "N" else "where some paths have not assigned it")
            c.judge(False if sep else None, rule, "%s %s" % (fn["name"], i.name), w, what)
        for b, name in fl.decls:
            if b in badb or b[0] != "v":
                continue
            i = fl.info[b]
            c.ok("matrix" if i.kind in ("mat", "empty") else "local", fn, "%s is assigned before every read" % name)
    report(c, op)
    ranges(c)
    c.need("field", 30)
    c.need("local", 5)
    c.need("matrix", 10)
    return "other", "definite assignment over %d functions: fields by constructor, locals and matrix cells by flow" % len(c.funcs)


def alike(a, b):
    """the same expression"""
    if isinstance(a, dict) and isinstance(b, dict):
        a, b = bare(a), bare(b)
        return all(alike(a.get(k), b.get(k)) for k in set(a) | set(b) if k != "l")
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return a == b


def nulltest(e):
    """a test of a pointer"""
    e = bare(e)
    if e.get("k") == "un" and e["op"] == "!":
        return nulltest(e["e"])
    if e.get("k") == "bin" and e["op"] in ("&&", "||"):
        return nulltest(e["a"]) and nulltest(e["b"])
    if e.get("k") == "bin" and e["op"] in ("==", "!="):
        return any("nullptr" in str(bare(x).get("t", "")) or bare(x).get("k") == "null" for x in (e["a"], e["b"]))
    if e.get("k") == "call":
        return e["f"].endswith(("operator bool", "::expired")) or "nullptr_t" in str(e.get("pt"))
    return str(e.get("t", "")).rstrip().endswith("*") or e.get("k") == "bool"


def inside(s, body, conds):
    """the conditions under which s is reached in one pass of a loop body; None when the way there is not understood"""
    k = body.get("k") if isinstance(body, dict) else None
    if body is s:
        return conds
    if k is None or not any(x is s for x in nodes(body)):
        return None
    if k == "block":
        for x in body["s"]:
            if any(y is s for y in nodes(x)):
                return inside(s, x, conds)
            if x.get("k") == "if" and any(y["k"] == "cont" for y in nodes(x["a"])) and not x.get("b"):
                conds = conds + [x["c"]]
            elif any(y["k"] in ("cont", "break", "ret") for y in nodes(x)):
                return None
        return None
    if k == "if":
        if any(x is s for x in nodes(body["c"])) or body.get("b"):
            return None
        return inside(s, body["a"], conds + [body["c"]])
    if k in ("for", "rfor", "while", "do", "switch", "try", "lambda"):
        return None
    return conds


def columns(c, fn):
    """a matrix with one row or column per element of a container, filled by a loop over that container"""
    every = list(nodes(fn["body"]))
    ids = {n["id"]: n for n in every if n["k"] == "var"}

    def value(e):
        e = bare(e)
        if isinstance(e, dict) and e.get("k") == "ref" and e.get("id") in ids and str(ids[e["id"]]["t"]).startswith("const ") \
                and ids[e["id"]].get("init"):
            return value(ids[e["id"]]["init"])
        return e
    for v in [n for n in every if n["k"] == "var" and n.get("init") and raw(n["init"]) not in (False, (None, None))]:
        i = bare(v["init"])
        while len(i["a"]) == 1:
            i = bare(i["a"][0])
        szs = [value(x) for x in i["a"][:2]]
        szs = [x["o"] for x in szs if isinstance(x, dict) and x.get("k") == "call" and x["f"].endswith("::size") and x.get("o")]
        if len(szs) != 1:
            continue
        if any(n["k"] == "call" and n["f"].endswith("operator=") and bare(n["a"][0] if n["a"] else {}).get("id") == v["id"] for n in every):
            continue
        for L in [n for n in every if n["k"] == "rfor" and alike(n["range"], szs[0])]:
            wr = [n for n in nodes(L["body"]) if n["k"] in ("bin", "call") and n.get("op") == "=" and
                  any(x.get("id") == v["id"] for x in nodes(n.get("a") or {}))]
            for n in wr:
                cs = inside(n, L["body"], [])
                w = "%s:%s (%s)" % (c.prog.rel(fn["file"]), n["l"], fn["name"])
                if cs is None:
                    continue
                odd = [x for x in cs if not nulltest(x)]
                c.judge(not odd, "matrix", "%s %s columns" % (fn["name"], v["n"]), w,
                        "%s: written for every element it has room for" % v["n"],
                        "%s has room for every element, but those for which a condition (line %s) fails are never written"
                        % (v["n"], odd[0]["l"] if odd else ""))


def report(c, op):
    for (cls, f), v in ((x, z) for x, y in sorted(op.items(), key=lambda t: t[0]) for z in y):
        s, why, k, fd = v[:4]
        rd = readers(c, cls, f)
        w = k if k is not None else "%s:%s (%s)" % (c.prog.rel(c.prog.records[cls]["file"]), fd["l"], cls)
        what = "%s leaves %s without a value%s" % (k["name"] if k else cls, f, "" if s == "N" else " on some path")
        if not rd:
            c.ok("field", w, what + "; nothing reads it before it is assigned")
            continue
        if k is None and not makers(c, cls):
            c.ok("field", w, "%s is only made with a value for %s" % (cls, f))
            continue
        if after(c, cls, f, k):
            c.und("field", w, what + "; assigned where objects are made")
            continue
        soft = s == "M" and "soft" in {x[0] for x in why}
        c.judge(None if soft else False, "field", "%s::%s" % (cls, f), w, what + ", and it is read at " + ", ".join(rd[:3]))


def readers(c, cls, f):
    """functions in which the field may be read before the same function assigned it"""
    r = []
    for fn in c.fns():
        if not fn.get("body") or not any(n.get("k") == "mem" and n.get("n") == f and n.get("c") == cls for n in nodes(fn["body"])):
            continue
        if fn.get("ctor") and fn.get("cls") == cls:
            continue
        fl = Flow(c.prog, fn)
        st = {}
        for p in fn["params"]:
            if fl.rectype(p["t"]):
                fl.rec(st, ("v", p["id"]), p["t"], p["n"])
        tracked = []
        if fn.get("cls") == cls:
            fl.track(st, ("f", f), "num", 1, None, f)
        fl.run(st)
        direct = False
        for base, cell, s, why, sep, line in fl.reads:
            if (base == ("f", f) or cell == f):
                direct = True
        # objects reached in another way than through a variable
        ok = set()
        for n in nodes(fn["body"]):
            if n.get("k") == "bin" and n["op"] == "=":
                ok.add(id(bare(n["a"])))
        for n in nodes(fn["body"]):
            if n.get("k") == "mem" and n.get("n") == f and n.get("c") == cls and id(n) not in ok:
                o = bare(n.get("o"))
                if isinstance(o, dict) and o.get("k") not in ("this", "ref"):
                    if not (o.get("k") in ("un", "call") and isinstance(bare(o.get("e") or o.get("o")), dict) and bare(o.get("e") or o.get("o")).get("k") == "ref"):
                        direct = True
        if direct:
            r.append(fn["name"])
    return r


def sets(n, cls, f):
    if n.get("k") == "bin" and n["op"] == "=":
        x = bare(n["a"])
        while isinstance(x, dict) and x.get("k") in ("idx", "call"):
            x = bare(x.get("o") or x.get("a"))
        return isinstance(x, dict) and x.get("k") == "mem" and x.get("n") == f and x.get("c") == cls
    return False


def makers(c, cls):
    """functions that make such an object without any value"""
    return [fn for fn in c.fns() if fn.get("body") and any(
        n.get("k") == "ctor" and plain(n["t"]) == cls and not n["a"] and not n.get("zero") for n in nodes(fn["body"]))]


def always(n):
    """nodes not under a condition"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            if x.get("k") == "if":
                st.extend([x.get("init"), x.get("c")])
            elif x.get("k") == "cond":
                st.append(x.get("c"))
            elif x.get("k") not in ("lambda", "switch"):
                st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def whole(n, cls, k):
    """the object is replaced by another one, not one made by constructor k"""
    if n.get("k") == "call" and n.get("op") == "=" and n["f"].endswith("::operator=") and n["f"].startswith(cls + "::"):
        v = bare(n["a"][-1])
        return not (isinstance(v, dict) and v.get("k") == "ctor" and k is not None and v.get("u") == k["u"])
    return False


def after(c, cls, f, k):
    """some function that makes such an object assigns the field"""
    for fn in c.fns():
        if not fn.get("body") or fn.get("ctor") and fn.get("cls") == cls:
            continue
        if not any(n.get("k") == "ctor" and plain(n["t"]) == cls and n.get("cp") not in ("copy", "move") or
                   n.get("k") == "call" and n["f"].split("::")[-1] in ("make_shared", "make_unique", "resize") and cls in str(n.get("ta")) + n["f"]
                   for n in nodes(fn["body"])):
            continue
        for n in always(fn["body"]):
            if sets(n, cls, f) or whole(n, cls, k):
                return True
        for n in nodes(fn["body"]):
            if n.get("k") == "call" and n.get("o") and n.get("u") in c.prog.fns and n.get("op") != "=":
                g = c.prog.fns[n["u"]]
                if g.get("cls") == cls and any(sets(m, cls, f) for m in always(g.get("body"))):
                    return True
    return False


# ------------------------------------------------------------ positions in lists
def linear(t, s=1):
    """({atom: factor}, constant) of a sum"""
    at, cst = {}, 0

    def go(t, s):
        nonlocal cst
        if isconst(t):
            if not isinstance(t.a[0], int):
                return False
            cst += s * t.a[0]
            return True
        if t.op in ("cast", "trunc"):
            return go(t.a[-1] if isinstance(t.a[-1], Term) else t.a[0], s)
        if t.op == "op" and t.a[0] in ("+", "-") and len(t.a) == 3:
            return go(t.a[1], s) and go(t.a[2], s if t.a[0] == "+" else -s)
        at[t] = at.get(t, 0) + s
        return True
    return ({k: v for k, v in at.items() if v}, cst) if go(t, s) else None


def ranges(c):
    seen = set()
    for fn in c.roots():
        if fn["name"].split("::")[-1] in ("main", "runCalibrationWorkflow"):
            continue
        for e in c.it(fn).events:
            if e.kind != "index":
                continue
            r = inrange(e)
            if r is None or (e.fn["u"], e.line, r) in seen:
                continue
            seen.add((e.fn["u"], e.line, r))
            what = "%s[%s]" % (show(e.cont)[-80:], show(e.key)[:80])
            c.judge(r > 0, "range", "%s line of %s" % (e.fn["name"], show(e.cont)[-60:]), e, what,
                    "%s is read %s" % (what, "before its first entry" if r < 0 else "past its last entry"))


def inrange(e):
    """1: within the list, 0: past its end, -1: before its start, None: not decided"""
    k = linear(e.key)
    if k is None or len(k[0]) != 1 or list(k[0].values()) != [1]:
        return None
    key = next(iter(k[0]))
    for L in e.loops():
        if L.key is not key:
            continue
        if L.kind == "each":
            s, n, d = 0, mk("size", L.contval if isinstance(L.contval, Term) else L.cont), 0
            mine = [x for x in (L.cont, L.contval) if isinstance(x, Term)]
        elif L.kind == "range" and L.step == 1 and isinstance(L.start, Term) and isconst(L.start) and isinstance(L.start.a[0], int) and isinstance(L.bound, Term):
            b = linear(L.bound)
            if b is None or len(b[0]) != 1 or list(b[0].values()) != [1]:
                return None
            n = next(iter(b[0]))
            s, d = L.start.a[0], b[1]
            if n.op != "size":
                return None
            mine = [n.a[0]]
        else:
            return None
        if not any(x is e.cont or x is e.cv for x in mine):
            return None
        over, under = d + k[1] > 0, s + k[1] < 0
        if not over and not under:
            return 1
        if L.exits or any(contains(g, key) for g in e.guards()):
            return None
        return 0 if over else -1
    return None
