"""Readable rendering of the fact trees (debugging and reports)."""


def short(n):
    return n.replace("McCalib::", "").replace("std::", "").replace("cv::", "")


def ex(e):
    if e is None:
        return "-"
    k = e["k"]
    if k == "ref":
        return e.get("g") or e["n"]
    if k == "this":
        return "this"
    if k == "mem":
        return ex(e["o"]) + "." + e["n"]
    if k == "call":
        a = ", ".join(ex(x) for x in e["a"])
        f = short(e.get("f", "?") if "f" in e else ex(e["fe"]))
        if "o" in e:
            return "%s.%s(%s)" % (ex(e["o"]), f.split("::")[-1], a)
        return "%s(%s)" % (f, a)
    if k == "ctor":
        return "%s{%s}%s" % (short(e["t"])[:40], ", ".join(ex(x) for x in e["a"]), "'" + e["cp"] if "cp" in e else "")
    if k in ("int", "flt"):
        return str(e["v"])
    if k == "bool":
        return str(e["v"])
    if k == "str":
        return repr(e["v"])
    if k == "null":
        return "null"
    if k == "un":
        return "%s(%s)" % (e["op"], ex(e["e"]))
    if k == "bin":
        return "(%s %s %s)" % (ex(e["a"]), e["op"], ex(e["b"]))
    if k == "cond":
        return "(%s ? %s : %s)" % (ex(e["c"]), ex(e["a"]), ex(e["b"]))
    if k == "idx":
        return "%s[%s]" % (ex(e["a"]), ex(e["i"]))
    if k == "cast":
        return "<%s>%s" % (e["t"], ex(e["e"]))
    if k == "list":
        return "{" + ", ".join(ex(x) for x in e["a"]) + "}"
    if k == "seq":
        return "{...; %s}" % ex(e["e"])
    if k in ("defarg", "definit"):
        return "~" + ex(e["e"])
    if k == "new":
        return "new " + ex(e["e"]) if e["e"] else "new " + e["t"]
    if k == "lambda":
        return "lambda"
    if k in ("fref", "mref"):
        return "&" + e["f"]
    return k + ":" + e.get("cls", "")


def st(s, ind=0):
    p = "  " * ind
    if s is None:
        return
    k = s["k"]
    if k == "block":
        for x in s["s"]:
            st(x, ind)
    elif k == "decls":
        for d in s["d"]:
            print("%s%d: %s %s = %s" % (p, d["l"], short(d["t"])[:50], d["n"], ex(d["init"])))
    elif k == "expr":
        print("%s%d: %s" % (p, s["l"], ex(s["e"])))
    elif k == "if":
        print("%s%d: if %s" % (p, s["l"], ex(s["c"])))
        st(s["a"], ind + 1)
        if s["b"]:
            print(p + "else")
            st(s["b"], ind + 1)
    elif k == "for":
        print("%s%d: for" % (p, s["l"]))
        st(s["init"], ind + 2)
        print("%s   ; %s ; %s" % (p, ex(s["c"]), ex(s["inc"])))
        st(s["body"], ind + 1)
    elif k == "rfor":
        print("%s%d: for %s : %s" % (p, s["l"], s["var"]["n"], ex(s["range"])))
        st(s["body"], ind + 1)
    elif k in ("while", "do"):
        print("%s%d: %s %s" % (p, s["l"], k, ex(s["c"])))
        st(s["body"], ind + 1)
    elif k == "ret":
        print("%s%d: return %s" % (p, s["l"], ex(s["e"])))
    else:
        print("%s%d: %s" % (p, s["l"], k))
        if s.get("body"):
            st(s["body"], ind + 1)


if __name__ == "__main__":
    import sys
    from . import facts
    P = facts.load()
    for n in sys.argv[1:]:
        for f in P.by_name.get(n, []):
            print("==", f["name"], [(x["n"], short(x["t"])) for x in f["params"]], f["file"], f["l"])
            for i in f.get("inits", []):
                print("   init", i.get("field"), ex(i["e"]))
            st(f["body"], 1)
    if len(sys.argv) == 1:
        for n, l in sorted(P.by_name.items()):
            print(n, len(l), l[0].get("ta"))
