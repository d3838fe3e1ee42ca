"""Standard algorithms over whole ranges, rewritten as the loops they stand for.

A call in statement position becomes the loop; a call whose value is used becomes a 'seq' expression: statements, then a value.
Only calls whose meaning is certain are rewritten; everything else stays a call.
"""
import json

_n = [10 ** 7]


def fresh():
    _n[0] += 1
    return _n[0]


def same(a, b):
    return strip(a) == strip(b)


def strip(n):
    if isinstance(n, dict):
        return json.dumps({k: strip(v) for k, v in n.items() if k not in ("l", "m")}, sort_keys=True)
    if isinstance(n, list):
        return [strip(x) for x in n]
    return n


def uncast(e):
    while isinstance(e, dict) and (e["k"] == "cast" or e["k"] == "ctor" and len(e.get("a", ())) == 1 and "iterator" in str(e.get("t"))):
        e = e["e"] if e["k"] == "cast" else e["a"][0]
    return e


def it_of(e, names):
    """container of which the expression is begin() / end()"""
    e = uncast(e)
    if e["k"] != "call" or "f" not in e:
        return None
    f = e["f"]
    if f in tuple("std::" + n for n in names) and len(e["a"]) == 1:
        return e["a"][0]
    if f.startswith("std::") and f.split("::")[-1] in names and "o" in e and not e["a"]:
        return e["o"]
    return None


def pure(e):
    """evaluating the expression again gives the same object"""
    k = e["k"]
    if k in ("ref", "this", "int", "str"):
        return True
    if k == "mem":
        return pure(e["o"])
    if k == "idx":
        return pure(e["a"]) and pure(e["i"])
    if k == "cast":
        return pure(e["e"])
    if k == "un" and e.get("op") == "*":
        return pure(e["e"])
    if k == "call":
        b = (e.get("f") or "").split("::")[-1]
        return b in ("operator[]", "at", "operator->", "operator*", "get") and ("o" not in e or pure(e["o"])) and all(pure(x) for x in e["a"])
    return False


def full(a, b):
    """the container of a whole range [a, b)"""
    x, y = it_of(a, ("begin", "cbegin")), it_of(b, ("end", "cend"))
    if x is not None and y is not None and same(x, y) and pure(x):
        return x
    return None


def bare(t):
    t = t.strip()
    while t.endswith(("&", " const")):
        t = t[:-1].strip() if t.endswith("&") else t[:-6].strip()
    return t[6:] if t.startswith("const ") else t


def elem_t(x):
    t = bare(x.get("t", ""))
    i = t.find("<")
    if i < 0:
        return "?"
    d, j = 0, i
    for j in range(i + 1, len(t)):
        if t[j] == "<":
            d += 1
        elif t[j] == ">":
            if d == 0:
                break
            d -= 1
        elif t[j] == "," and d == 0:
            break
    return t[i + 1:j].strip()


def rets(n, inl=False, out=None, loop=False):
    """(return node, inside a loop) of a lambda body"""
    out = [] if out is None else out
    if isinstance(n, dict):
        if n.get("k") == "lambda":
            return out
        if n.get("k") == "ret":
            out.append((n, loop))
        lp = loop or n.get("k") in ("for", "while", "rfor", "do", "switch")
        for v in n.values():
            rets(v, inl, out, lp)
    elif isinstance(n, list):
        for v in n:
            rets(v, inl, out, loop)
    return out


def lam(e, n):
    e = uncast(e)
    if e["k"] == "ctor" and len(e.get("a", ())) == 1:
        e = uncast(e["a"][0])
    return e if e["k"] == "lambda" and len(e["params"]) == n else None


def valued(l):
    """(statements, value expression) of a lambda with one return at its end"""
    b = l["body"]
    ss = b["s"] if b["k"] == "block" else [b]
    rs = rets(b)
    if len(rs) != 1 or not ss or ss[-1] is not rs[0][0] or ss[-1].get("e") is None:
        return None
    return ss[:-1], ss[-1]["e"]


def ref(v, l):
    return {"k": "ref", "id": v["id"], "n": v["n"], "t": v["t"], "l": l}


def var(n, t, init, l, i=None):
    return {"k": "var", "id": i or fresh(), "n": n, "t": t, "init": init, "l": l}


def block(ss, l):
    return {"k": "block", "s": ss, "l": l, "e": l}


def expr(e, l):
    return {"k": "expr", "e": e, "l": l}


def assign(a, b, l):
    return {"k": "bin", "op": "=", "a": a, "b": b, "t": a.get("t", ""), "l": l}


def push(y, v, l):
    t = bare(y.get("t", ""))
    return {"k": "call", "f": t + "::push_back", "o": y, "a": [v], "m": "mut", "t": "void", "pt": ["const T &"], "l": l}


def setins(y, v, l):
    t = bare(y.get("t", ""))
    return {"k": "call", "f": t + "::insert", "o": y, "a": [v], "m": "mut", "t": "void", "pt": ["const T &"], "l": l}


def item(x, i, l):
    return {"k": "call", "f": bare(x.get("t", "")) + "::operator[]", "op": "[]", "o": x, "a": [i], "m": "mut", "t": elem_t(x), "pt": ["unsigned long"], "l": l}


def size(x, l):
    return {"k": "call", "f": bare(x.get("t", "")) + "::size", "o": x, "a": [], "m": "const", "t": "unsigned long", "pt": [], "l": l}


def param(p, l):
    return {"k": "var", "id": p["id"], "n": p["n"], "t": p["t"], "init": None, "l": l, "bindings": p.get("bindings")} if p.get("bindings") else \
        {"k": "var", "id": p["id"], "n": p["n"], "t": p["t"], "init": None, "l": l}


def each(x, v, ss, l):
    return {"k": "rfor", "var": v, "range": x, "body": block(ss, l), "l": l}


def upto(n, i, ss, l):
    one = {"k": "un", "op": "++", "e": ref(i, l), "t": i["t"], "l": l, "pre": True}
    return {"k": "for", "init": {"k": "decls", "d": [i], "l": l}, "c": {"k": "bin", "op": "<", "a": ref(i, l), "b": n, "t": "bool", "l": l},
            "inc": one, "body": block(ss, l), "l": l}


def vec(x):
    return bare(x.get("t", "")).startswith("std::vector<")


def rewrite(e):
    """(statements, value or None) for a call, or None"""
    f, a, l = e.get("f"), e.get("a") or [], e.get("l", 0)
    if f == "std::for_each" and len(a) == 3:
        x, fn = full(a[0], a[1]), lam(a[2], 1)
        if x is None or fn is None:
            return None
        rs = rets(fn["body"])
        if any(lp or r.get("e") is not None for r, lp in rs):
            return None
        for r, _ in rs:
            r["k"] = "cont"
        return [each(x, param(fn["params"][0], l), [fn["body"]], l)], None
    if f == "std::transform" and len(a) == 4:
        x, fn = full(a[0], a[1]), lam(a[3], 1)
        v = valued(fn) if fn else None
        if x is None or v is None:
            return None
        ins = inserter(a[2])
        if ins is not None:
            return [each(x, param(fn["params"][0], l), v[0] + [expr(ins(v[1], l), l)], l)], None
        y = it_of(a[2], ("begin",))
        if y is not None and pure(y) and vec(x) and vec(y):
            i = var("_i", "unsigned long", {"k": "int", "v": 0, "t": "unsigned long", "l": l}, l)
            p = dict(param(fn["params"][0], l), init=item(x, ref(i, l), l))
            return [upto(size(x, l), i, [{"k": "decls", "d": [p], "l": l}] + v[0] + [expr(assign(item(y, ref(i, l), l), v[1], l), l)], l)], None
        return None
    if f == "std::copy" and len(a) == 3:
        x = full(a[0], a[1])
        if x is None:
            return None
        ins = inserter(a[2])
        if ins is not None:
            p = var("_x", "const " + elem_t(x) + " &", None, l)
            return [each(x, p, [expr(ins(ref(p, l), l), l)], l)], None
        y = it_of(a[2], ("begin",))
        if y is not None and pure(y) and vec(x) and vec(y):
            i = var("_i", "unsigned long", {"k": "int", "v": 0, "t": "unsigned long", "l": l}, l)
            return [upto(size(x, l), i, [expr(assign(item(y, ref(i, l), l), item(x, ref(i, l), l), l), l)], l)], None
        return None
    if f == "std::copy_n" and len(a) == 3:
        x, y = it_of(a[0], ("begin", "cbegin")), it_of(a[2], ("begin",))
        if x is not None and y is not None and pure(x) and pure(y) and vec(x) and vec(y):
            i = var("_i", "unsigned long", {"k": "int", "v": 0, "t": "unsigned long", "l": l}, l)
            return [upto(a[1], i, [expr(assign(item(y, ref(i, l), l), item(x, ref(i, l), l), l), l)], l)], None
        return None
    if f == "std::accumulate" and len(a) in (3, 4):
        x = full(a[0], a[1])
        if x is None:
            return None
        t = bare(e.get("t", "")) or "double"
        acc = var("_acc", t, a[2], l)
        if len(a) == 3:
            p = var("_x", "const " + elem_t(x) + " &", None, l)
            body = [expr(assign(ref(acc, l), {"k": "bin", "op": "+", "a": ref(acc, l), "b": ref(p, l), "t": t, "l": l}, l), l)]
        else:
            fn = lam(a[3], 2)
            v = valued(fn) if fn else None
            if v is None:
                return None
            p = param(fn["params"][1], l)
            q = dict(param(fn["params"][0], l), init=ref(acc, l))
            body = [{"k": "decls", "d": [q], "l": l}] + v[0] + [expr(assign(ref(acc, l), v[1], l), l)]
        return [{"k": "decls", "d": [acc], "l": l}, each(x, p, body, l)], ref(acc, l)
    if f in ("std::any_of", "std::all_of", "std::none_of", "std::count_if") and len(a) == 3:
        x, fn = full(a[0], a[1]), lam(a[2], 1)
        v = valued(fn) if fn else None
        if x is None or v is None:
            return None
        p = param(fn["params"][0], l)
        if f == "std::count_if":
            n = var("_n", "long", {"k": "int", "v": 0, "t": "long", "l": l}, l)
            inc = expr(assign(ref(n, l), {"k": "bin", "op": "+", "a": ref(n, l), "b": {"k": "int", "v": 1, "t": "long", "l": l}, "t": "long", "l": l}, l), l)
            return [{"k": "decls", "d": [n], "l": l},
                    each(x, p, v[0] + [{"k": "if", "c": v[1], "a": inc, "b": None, "l": l}], l)], ref(n, l)
        start = f != "std::any_of"
        flag = var("_f", "bool", {"k": "int", "v": start, "t": "bool", "l": l}, l)
        c = v[1] if f != "std::all_of" else {"k": "un", "op": "!", "e": v[1], "t": "bool", "l": l}
        hit = block([expr(assign(ref(flag, l), {"k": "int", "v": not start, "t": "bool", "l": l}, l), l), {"k": "break", "l": l}], l)
        return [{"k": "decls", "d": [flag], "l": l}, each(x, p, v[0] + [{"k": "if", "c": c, "a": hit, "b": None, "l": l}], l)], ref(flag, l)
    if f and f.startswith("std::vector<") and f.endswith("::insert") and len(a) == 3 and "o" in e:
        y, x = it_of(a[0], ("end", "cend")), full(a[1], a[2])
        if y is not None and x is not None and same(y, e["o"]) and pure(y) and not same(x, y):
            p = var("_x", "const " + elem_t(x) + " &", None, l)
            return [each(x, p, [expr(push(y, ref(p, l), l), l)], l)], None
    return None


def inserter(e):
    e = uncast(e)
    if e["k"] == "call" and e.get("f") == "std::back_inserter" and pure(e["a"][0]):
        y = e["a"][0]
        return lambda v, l: push(y, v, l)
    if e["k"] == "call" and e.get("f") == "std::inserter" and len(e["a"]) == 2 and pure(e["a"][0]) and bare(e["a"][0].get("t", "")).startswith("std::set<"):
        y = e["a"][0]
        return lambda v, l: setins(y, v, l)
    return None


NAMES = ("std::for_each", "std::transform", "std::copy", "std::copy_n", "std::accumulate", "std::any_of", "std::all_of", "std::none_of", "std::count_if")


def candidate(n):
    f = n.get("f") or ""
    return n.get("k") == "call" and (f in NAMES or f.startswith("std::vector<") and f.endswith("::insert") and len(n.get("a") or ()) == 3)


def go(n):
    """rewrite in place, children first"""
    if isinstance(n, list):
        for i, x in enumerate(n):
            n[i] = go(x)
        return n
    if not isinstance(n, dict):
        return n
    for k, v in n.items():
        if isinstance(v, (dict, list)):
            n[k] = go(v)
    if n.get("k") == "expr" and isinstance(n.get("e"), dict):
        e = n["e"]
        if e.get("k") == "seq":
            return block(e["s"], n.get("l", 0))
        if e.get("k") == "seqv":
            return block(e["s"], n.get("l", 0))
    if candidate(n):
        r = rewrite(n)
        if r is not None:
            ss, v = r
            return {"k": "seq", "s": ss, "e": v, "t": n.get("t", ""), "l": n.get("l", 0)}
    return n


def program(prog):
    for f in prog.fns.values():
        b = f.get("body")
        if b is not None:
            f["body"] = go(b)
        for i in f.get("inits") or ():
            if i.get("e"):
                i["e"] = go(i["e"])
