"""C14: a value obtained from a non-owning handle is dereferenced only where it is known to be alive."""
from sa.core import *


def run(c):
    c.rule("alive", "every dereference of a value that comes from std::weak_ptr::lock() is control-dependent on that same value "
                    "being non-null, in the function itself or in every caller that reaches it")
    sites = {}
    for fn, it in c.its():
        weak = {e.val for e in it.events if e.kind == "wlock" and isinstance(e.val, Term) and not owned(c, e.val, fn)}
        for e in it.events:
            if e.kind != "deref" or not isinstance(e.val, Term):
                continue
            for v in alts(e.val):
                if v not in weak or v.op in ("new", "null"):
                    continue
                alive = mk("nn", v)
                gs = e.guards()
                g = any(x is alive or contains_conj(x, alive) for x in gs)
                if not g and e.val is not v:
                    g = any(contains(x, alive) for x in gs) or mk("nn", e.val) in gs
                k = (e.fn["name"], nice(v, fn))
                sites.setdefault((e.fn["u"], e.line, ident(e)), []).append((g, fn, e, k))
    for key, inst in sorted(sites.items(), key=lambda kv: (kv[1][0][2].fn["file"], kv[0][1])):
        badi = [i for i in inst if not i[0]]
        w = inst[0][2]
        if not badi:
            c.ok("alive", w, "%s checked (%d contexts)" % (inst[0][3][1], len(inst)))
            continue
        real = []
        for g, fn, e, k in badi:
            # the same site reached through callers of the entry function
            up = [i for i in inst if i[1] is not fn and any(s[0] == fn["name"] for s in i[2].stack[1:])]
            if up and all(i[0] for i in up):
                continue
            real.append((e, k))
        if real:
            e, k = real[0]
            c.bad("alive", "%s:%s" % k, e, "%s is dereferenced in %s without a check that the handle is alive" % (k[1], k[0]))
        else:
            c.ok("alive", w, "%s checked in every caller" % inst[0][3][1])
    c.need("alive", 40)
    return "other", ("Forward symbolic evaluation of every function with callees inlined; each lock() result is followed to its "
                     "dereferences and the guards dominating them. Raw and owning pointers are out of scope of the rule.")


def owned(c, v, fn):
    """the value is the content of an owning field (a handle made from it in the same function is alive)"""
    x = v
    while x.op == "elem":
        x = x.a[0]
    if x.op != "fld" or not isinstance(x.a[1], str):
        return False
    recs = [c.prog.records[fn["cls"]]] if x.a[0].op == "this" and fn.get("cls") in c.prog.records else c.prog.records.values()
    ts = [f["t"] for r in recs for f in r["fields"] if f["n"] == x.a[1]]
    return bool(ts) and all("shared_ptr" in t and "weak_ptr" not in t for t in ts)


def alts(v):
    if v.op == "ite":
        return [y for x in v.a[1:] for y in alts(x)]
    return [v]


def contains_conj(g, a):
    return g.op == "&&" and any(x is a or isinstance(x, Term) and contains_conj(x, a) for x in g.a)


def ident(e):
    v = e.d.get("via")
    return (v or {}).get("n") or (v or {}).get("k")


def nice(v, fn):
    import re
    s = show(v)
    s = re.sub(r"#[ki]\d+", "#", s)
    s = re.sub(r"\b(\d+)\b", "", s) if len(s) > 200 else s
    return s[:160]
