"""Declared types of locations, from the record declarations."""
from .engine import *


def targs(t):
    """template arguments at top level"""
    i = t.find("<")
    if i < 0:
        return []
    d, cur, r = 0, "", []
    for ch in t[i:]:
        if ch in "<(":
            d += 1
            if d == 1:
                continue
        if ch in ">)":
            d -= 1
            if d == 0:
                break
        if ch == "," and d == 1:
            r.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        r.append(cur.strip())
    return r


def strip(t):
    t = t.strip()
    while True:
        u = t
        for p in ("const ", "volatile "):
            if t.startswith(p):
                t = t[len(p):].strip()
        while t.endswith(("&", "*", " const")):
            t = t[:-1].strip() if t[-1] in "&*" else t[:-6].strip()
        if t.startswith(("std::shared_ptr<", "std::weak_ptr<", "std::unique_ptr<", "cv::Ptr<")):
            t = targs(t)[0]
        if t == u:
            return t


class Typer:
    def __init__(self, prog):
        self.prog = prog
        self.fields = {}
        for cls, r in prog.records.items():
            for f in r["fields"]:
                self.fields[(cls, f["n"])] = f["t"]
        self.byname = {}
        for (cls, n), t in self.fields.items():
            self.byname.setdefault(n, set()).add(t)

    def ty(self, fn, t):
        """bare type of the object a term denotes (pointers are transparent); '' when unknown"""
        if t.op == "this":
            return fn.get("cls") or ""
        if t.op == "arg":
            i = t.a[1]
            ps = fn["params"]
            if isinstance(i, Term):
                i = i.a[0]
            return strip(ps[i]["t"]) if isinstance(i, int) and i < len(ps) else ""
        if t.op == "new":
            return strip(t.a[0]) if isinstance(t.a[0], str) else ""
        if t.op == "fld":
            b = self.ty(fn, t.a[0])
            r = self.fields.get((b, t.a[1]))
            if r:
                return strip(r)
            if t.a[1] in ("first", "second") and b.startswith("std::pair<"):
                a = targs(b)
                return strip(a[0 if t.a[1] == "first" else 1])
            if not b:
                s = self.byname.get(t.a[1], ())
                if len(s) == 1:
                    return strip(next(iter(s)))
            return ""
        if t.op in ("elem", "pair"):
            b = self.ty(fn, t.a[0])
            a = targs(b)
            if b.startswith(("std::map<", "std::unordered_map<")) and len(a) >= 2:
                return strip(a[1]) if t.op == "elem" else "std::pair<%s, %s>" % (a[0], a[1])
            if b.startswith(("std::vector<", "std::array<", "std::set<", "cv::Vec<", "std::deque<", "std::list<")) and a:
                return strip(a[0])
            return ""
        if t.op == "ite":
            return self.ty(fn, t.a[1]) or self.ty(fn, t.a[2])
        if t.op in ("agg", "filled", "lam", "collect", "fix", "lastof", "subst"):
            for x in t.a:
                if isinstance(x, Term) and x.op != "L":
                    r = self.ty(fn, x)
                    if r:
                        return r
        return ""
