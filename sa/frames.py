from .engine import *


def six(cells):
    """cells S[0..5] of one array -> S"""
    b = None
    for i, c in enumerate(cells):
        if not isinstance(c, Term) or c.op != "elem" or c.a[1] is not C(i):
            return None
        if b is None:
            b = c.a[0]
        elif b is not c.a[0]:
            return None
    return b


def fold_slots(t, memo):
    """pose(rod(v3 S[0..2]), v3 S[3..5])  ->  P(S)"""
    if isinstance(t, tuple):
        return tuple(fold_slots(x, memo) for x in t)
    if not isinstance(t, Term):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    a = tuple(fold_slots(x, memo) for x in t.a)
    r = rebuild(t.op, a)
    if r.op == "pose" and r.a[0].op == "rod" and r.a[0].a[0].op == "v3" and r.a[1].op == "v3":
        s = six(r.a[0].a[0].a + r.a[1].a)
        if s is not None:
            r = mk("P", s)
    memo[t] = r
    return r


if __name__ == "__main__":
    from . import facts
    P = facts.load()
    memo = {}
    names = sys.argv[1:] or sorted(P.by_name)
    for n in names:
        for f in P.by_name[n]:
            if f.get("implicit"):
                continue
            it = Interp(P).run(f)
            seen = set()
            for e in it.events:
                if e.kind in ("write", "push", "mapins") and len(e.stack) <= 3:
                    v = fold_slots(e.val, memo)
                    if any(x.op in ("mul", "inv", "P", "pose", "rod") for x in subterms(v)):
                        l = e.d.get("loc") or e.d.get("cont")
                        s = "%s %s %s := %s" % (e.line, e.kind, l, show(v))
                        if s in seen or root(l).op == "var" and "lit" in s:
                            continue
                        seen.add(s)
                        print(n.split("::")[-1], s[:420])
