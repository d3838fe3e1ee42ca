"""C12: the graph wrapper returns exact answers and keeps one vertex per id."""
from sa.core import *

IDX = fld(mk("this"), "idx_to_vertex_")


def calls(it, name):
    return [e for e in it.events if e.kind in ("call", "icall") and e.f == name]


def strip_cast(t):
    while t.op in ("trunc", "cast") or t.op == "ctor" and len(t.a) == 2 and isinstance(t.a[1], Term):
        t = t.a[1] if t.op == "ctor" else t.a[-1]
    return t


OF = {"covis_boards_graph_": "boards_3d_", "covis_camera_graph_": "cams_", "covis_objects_graph_": "object_3d_",
      "no_overlap_camgroup_graph_": "cam_group_"}
OWN = {"boards_3d_": "board_id_", "cams_": "cam_idx_", "object_3d_": "obj_id_", "cam_group_": "cam_group_idx_"}


def members(c):
    for fn, it in c.its_calling("Graph::addVertex"):
        if fn.get("cls") == "Graph":
            continue
        for e in it.events:
            if e.kind not in ("call", "icall") or e.f != "Graph::addVertex" or not e.args:
                continue
            if e.fn["u"] != fn["u"] and e.fn.get("cls") == "Graph":
                continue
            g, v = e.d.get("o"), strip_cast(e.args[-1])
            gname = g.a[1] if isinstance(g, Term) and g.op == "fld" and g.a[0] is mk("this") else None
            ls = [l for l in e.loops() if l.cont is not None and l.cont.op == "fld" and l.cont.a[0] is mk("this")]
            if gname not in OF or len(ls) != 1 or len(e.loops()) != 1:
                c.und("members", e, "%s: vertices are not added one by one" % show(g)[:60] if isinstance(g, Term) else "")
                continue
            L, key = ls[0], "%s in %s" % (gname, e.fn["name"])
            if L.cont.a[1] != OF[gname]:
                c.bad("members", key, e, "the vertices of %s are taken from %s" % (gname, L.cont.a[1]))
                continue
            own = elem(L.cont, L.key)
            if v is not L.key and not (v.op == "fld" and v.a[1] == OWN[OF[gname]] and contains(v, L.key)):
                c.judge(False if v.op in ("fld", "size", "k") or isconst(v) else None, "members", key, e, "",
                        "the vertex added for an entry of %s is %s, not its id" % (OF[gname], show(v)[:80]))
                continue
            low = [x for x in e.guards() if refuses(x, 1)]
            ex = cut(L, e)
            c.judge(False if low or ex is True else None if ex is None else True, "members", key, e, "every observed entry of %s" % OF[gname],
                    "an entry of %s becomes a vertex only if %s" % (OF[gname], show(low[0])[:100]) if low else "the loop over %s is left early" % OF[gname])


def name_key(t):
    """the id whose decimal name is inside t"""
    for x in subterms(t):
        if x.op == "call" and x.a[0] == "std::to_string":
            return x.a[1]
    return None


def run(c):
    c.rule("vertex", "a vertex is created only for an id that a lookup made after all earlier insertions of the same call did not "
                     "find, is named by that id and is recorded under it")
    c.rule("members", "every board, camera, object or camera group with at least one observation is a vertex of its graph, under its own id")
    c.rule("edge", "an edge joins the vertices of the two ids given and carries the given weight in full precision")
    c.rule("clear", "clearing the graph clears the id table and the graph together")
    c.rule("components", "the components returned contain, for every component number, exactly the vertices with that number")
    c.rule("dijkstra", "shortest paths run on this graph from the vertex of one end, with distances as precise as the weights")
    c.rule("path", "the path starts at v1, follows predecessors, ends at v2")
    c.rule("guard", "unknown vertices and unreachable vertices yield an empty path before the predecessor walk")
    members(c)
    for fn in c.roots():
        if fn.get("cls") != "Graph":
            continue
        it = c.it(fn, opaque=())
        # vertices
        adds = calls(it, "boost::add_vertex")
        for e in adds:
            k = name_key(e.args[0])
            res = mk("call", "boost::add_vertex", *e.args)
            wr = [w for w in it.events if w.kind == "write" and w.loc.op == "elem" and w.loc.a[0] is IDX and w.seq > e.seq
                  and any(t.op == "call" and t.a[0] == "boost::add_vertex" and name_key(t) is k for t in subterms(w.val))]
            if k is None:
                c.und("vertex", e, "name of the new vertex not understood")
                continue
            ins = mk("in", IDX, k)
            absent = unop("!", ins)
            g = e.guards()
            guarded = any(x is absent for x in g)
            if not guarded and any(contains(x, ins) for x in g):
                c.und("vertex", e, "lookup of %s combined with other conditions" % k)
                continue
            c.judge(guarded, "vertex", "lookup %s in %s" % (k, fn["name"]), e, "new vertex %s only if unknown" % k,
                    "a vertex named %s is created without checking that the id is unknown: one id may get two vertices" % k)
            own = [w for w in wr if w.loc.a[1] is k]
            c.judge(bool(own), "vertex", "record %s in %s" % (k, fn["name"]), e, "new vertex %s recorded under its id" % k,
                    "the vertex created for %s is not recorded under that id" % k)
            # another id inserted before may be the same id
            for e2 in adds:
                k2 = name_key(e2.args[0])
                if e2.seq < e.seq and k2 is not None and k2 is not k:
                    tests = [t.seq for t in it.events if t.kind in ("test", "access") and t.d.get("cont") is IDX and t.key is k and t.seq < e.seq]
                    rec = [w.seq for w in it.events if w.kind == "write" and w.loc.op == "elem" and w.loc.a[0] is IDX and w.loc.a[1] is k2]
                    ne = any(x.op == "op" and x.a[0] == "!=" and set(x.a[1:]) == {k, k2} for x in g)
                    ok = ne or bool(rec) and bool(tests) and min(rec) < max(tests)
                    c.judge(ok, "vertex", "order %s,%s in %s" % (k2, k, fn["name"]), e, "%s looked up after %s was recorded" % (k, k2),
                            "%s is looked up before the vertex of %s is recorded: equal ids get two vertices" % (k, k2))
        for e in calls(it, "boost::add_edge"):
            ks = []
            for a in e.args[:2]:
                ks.append(vertex_of(a))
            vs = [mk("arg", p["n"], i) for i, p in enumerate(fn["params"])]
            if len(vs) < 3 or any(len(k) != 1 for k in ks):
                c.und("edge", e, "edge ends not understood")
            else:
                c.judge(ks[0] | ks[1] == set(vs[:2]), "edge", "ends in " + fn["name"], e, "edge joins v1 and v2",
                        "the edge joins %s instead of the two ids given" % sorted(map(str, ks[0] | ks[1])))
                w = vs[2]
                wt = e.args[2] if len(e.args) > 3 else None
                nar = narrowing(fn, 2)
                if fn["params"][2]["t"].replace("const ", "").strip() not in ("double", "long double", "double &", "double &&"):
                    nar = {"l": fn["l"], "t": fn["params"][2]["t"]}
                if nar:
                    c.bad("edge", "weight in " + fn["name"], "%s:%s (%s)" % (c.prog.rel(fn["file"]), nar["l"], fn["name"]),
                          "the weight is converted to %s before it is stored" % nar["t"])
                    continue
                if wt is None:
                    c.bad("edge", "weight in " + fn["name"], e, "the edge is added without its weight")
                elif strip(wt) is w:
                    c.ok("edge", e, "weight stored unchanged")
                elif any(t.op == "trunc" for t in subterms(wt)) or not contains(wt, w):
                    c.bad("edge", "weight in " + fn["name"], e, "the stored weight is %s, not the given weight" % show(wt)[:120])
                else:
                    c.und("edge", e, "weight expression %s" % show(wt)[:100])
        # clearing
        cl = [e for e in it.events if e.kind == "write" and e.loc is IDX and e.val.op == "empty"] if not fn.get("ctor") else []
        gc = [e for e in it.events if e.kind in ("call", "icall") and "adjacency_list" in e.f and e.f.endswith("::clear")]
        gc += [e for e in it.events if e.kind == "write" and e.loc is fld(mk("this"), "graph_") and e.val.op in ("ctor", "empty")] if not fn.get("ctor") else []
        if cl or gc:
            c.judge(bool(cl) and bool(gc), "clear", fn["name"], fn, "graph and id table cleared together",
                    "only the %s is cleared: ids refer to vertices of another graph" % ("id table" if cl else "graph"))
            G0 = fld(mk("this"), "graph_")
            for es, what in ((cl, "id table"), (gc, "graph")):
                # a guard about something else than the state cleared leaves one of the two behind
                other = gc if es is cl else cl
                for e in es:
                    if len(es) > 1 or not e.guards() or not other or all(x.guards() for x in other):
                        continue
                    # the guard asks the graph after it has been emptied
                    asked = [x for x in it.events if x.kind in ("call", "icall") and "num_vertices" in x.f and
                             min(y.seq for y in gc) < x.seq < e.seq]
                    odd = [g for g in e.guards() if not (contains(g, IDX) or contains(g, G0))]
                    c.judge(False if asked or odd else None, "clear", fn["name"] + " " + what, e, "",
                            "the %s is cleared only under %s: ids refer to vertices of another graph" % (what, show(e.guards()[0])[:100]))
        for e in calls(it, "boost::connected_components"):
            comps(c, it, fn, e)
        for e in calls(it, "boost::dijkstra_shortest_paths"):
            paths(c, it, fn, e)
    # element types
    rec = c.prog.records.get("Graph")
    if rec:
        for f in rec["fields"]:
            if f["n"] == "graph_":
                t = f["t"]
                import re
                m = re.search(r"edge_weight_t, (\w[\w ]*)", t)
                c.judge(m is None and None or m.group(1) in ("double", "long double"), "edge", "weight type", "McCalib/include/Graph.hpp (Graph)",
                        "edge weights are double", "edge weights are stored as %s" % (m and m.group(1)))
    for r in ("vertex", "edge", "components", "dijkstra", "path", "guard"):
        c.need(r)
    return "other", ("Symbolic evaluation of the Graph wrapper; Boost's own algorithms are trusted. Decides vertex identity, edge ends and "
                     "weights, precision of the distance map, path construction, guards and component enumeration.")


def narrowing(fn, i):
    """a conversion of parameter i (or a local made from it) to less than double"""
    ids = {fn["params"][i]["id"]}
    for n in walk(fn["body"]):
        if n.get("k") == "var" and n.get("init") and any(x.get("id") in ids for x in walk(n["init"]) if x["k"] == "ref"):
            ids.add(n["id"])
            if n["t"].replace("const ", "") in ("float", "int"):
                return n
    for n in walk(fn["body"]):
        if n.get("k") == "cast" and n.get("ft", "").replace("const ", "").startswith("double") and \
                n.get("t", "").replace("const ", "") in ("float", "int", "unsigned int", "long"):
            if any(x.get("id") in ids for x in walk(n["e"]) if x["k"] == "ref"):
                return n
    return None


def vertex_of(t):
    if t.op == "ite":
        return vertex_of(t.a[1]) | vertex_of(t.a[2])
    if t.op == "elem" and t.a[0] is IDX:
        return {t.a[1]}
    if t.op == "call" and t.a[0] == "boost::add_vertex":
        k = name_key(t.a[1])
        return {k} if k is not None else set()
    return {t}


def strip(t):
    while t.op == "ctor" and len(t.a) >= 2 and isinstance(t.a[-1], Term):
        t = t.a[-1]
    return t


def comps(c, it, fn, e):
    ncc = mk("call", "boost::connected_components", *e.args)
    # container receiving the component numbers
    cv = None
    for a in e.args[1:]:
        for t in subterms(a):
            if t.op == "var":
                cv = t
                break
        if cv is not None:
            break
    nv = [t for t in subterms(it.ret) if t.op == "call" and t.a[0] == "boost::num_vertices"]
    rets = [r for r in it.events if r.kind == "ret" and r.d.get("depth") == 1 and r.seq > e.seq]
    dec = False
    for r in rets:
        v = r.val
        if v.op == "collect":
            L1 = it.loops_by_uid.get(v.a[0].a[0])
            item = v.a[2]
            if L1 is None or L1.kind != "range" or item.op != "collect":
                continue
            L2 = it.loops_by_uid.get(item.a[0].a[0])
            if L2 is None or L2.kind != "range":
                continue
            dec = True
            c.judge(L1.start is C(0) and L1.bound is ncc, "components", "component range", r, "all component numbers from 0",
                    "components %s..%s are returned instead of 0..number of components" % (L1.start, show(L1.bound)[:60]))
            ok2 = L2.start is C(0) and L2.bound.op == "call" and L2.bound.a[0] == "boost::num_vertices"
            c.judge(ok2, "components", "vertex range", r, "all vertices from 0",
                    "vertices %s..%s are considered instead of all vertices" % (L2.start, show(L2.bound)[:60]))
            g = item.a[3]
            okg = g.op == "op" and g.a[0] == "==" and any(x is L1.key for x in g.a[1:]) and any(contains(x, L2.key) for x in g.a[1:])
            c.judge(okg, "components", "membership", r, "membership is component[v] == number",
                    "a vertex is put in a component under the condition %s" % show(g)[:120])
            c.judge(v.a[3] is TRUE, "components", "every component", r, "every component is returned",
                    "a component is returned only if %s" % show(v.a[3])[:120])
            c.judge(contains(item.a[2], L2.key) and not contains(item.a[2], L1.key), "components", "name", r, "the id of that vertex is listed",
                    "the id listed is %s" % show(item.a[2])[:120])
            for L in (L1, L2):
                c.judge(not L.has_break, "components", "early exit", r, "no early exit", "the enumeration of vertices stops early")
    if not dec:
        c.und("components", e, "enumeration in another form")


def paths(c, it, fn, e):
    v1, v2 = [mk("arg", p["n"], i) for i, p in enumerate(fn["params"])][:2] if len(fn["params"]) >= 2 else (None, None)
    if v1 is None:
        c.und("dijkstra", e, "called outside a two-vertex query")
        return
    i1, i2 = elem(IDX, v1), elem(IDX, v2)
    src = e.args[1]
    if src not in (i1, i2):
        c.bad("dijkstra", "source in " + fn["name"], e, "the search starts at %s, not at one of the two vertices" % show(src)[:120])
        return
    c.ok("dijkstra", e, "source %s" % src)
    c.judge(any(t is fld(mk("this"), "graph_") for t in subterms(e.args[0])), "dijkstra", "graph in " + fn["name"], e, "runs on graph_",
            "the search runs on another graph: %s" % show(e.args[0])[:100])
    # predecessor and distance containers
    pred = dist = None
    for t in subterms(e.args[2]) if len(e.args) > 2 else ():
        if t.op == "call" and isinstance(t.a[0], str):
            cont = [x for a in t.a[1:] if isinstance(a, Term) for x in first_begin(a)]
            if t.a[0].endswith("predecessor_map") and cont:
                pred = cont[0]
            if t.a[0].endswith("distance_map") and cont:
                # the receiver carries the predecessor map, the last argument the distances
                last = [x for x in first_begin(t.a[-1])]
                dist = last[0] if last else cont[-1]
            if t.a[0].endswith("weight_map"):
                c.und("dijkstra", e, "explicit weight map")
    tys = var_types(fn)
    if dist is not None and dist.op == "var":
        ty = tys.get(dist.a[2], "")
        import re
        m = re.search(r"vector<(\w[\w ]*)", ty)
        if m:
            c.judge(m.group(1) in ("double", "long double"), "dijkstra", "distance type in " + fn["name"], e, "distances are double",
                    "distances are kept as %s: weights are compared with less precision than they have" % m.group(1))
        else:
            c.und("dijkstra", e, "type of the distance map %s" % ty[:80])
    else:
        c.und("dijkstra", e, "no explicit distance map")
    # the predecessor walk
    walks = [L for L in it.loops_by_uid.values() if L.kind == "while" and any(
        pred is not None and is_pred_step(s, h, pred, it) for l, (i0, h, s) in L.vars.items())]
    if pred is None or not walks:
        c.und("path", e, "predecessor walk not found")
        return
    L = walks[0]
    l, (i0, h, st) = [(l, x) for l, x in L.vars.items() if is_pred_step(x[2], x[1], pred, it)][0]
    other = i2 if src is i1 else i1
    c.judge(i0 is other, "path", "start in " + fn["name"], e, "the walk starts at the other end",
            "the predecessor walk starts at %s instead of the end opposite to the source" % show(i0)[:100])
    cond = L.cond
    okc = cond is not None and cond.op == "op" and cond.a[0] == "!=" and set(cond.a[1:]) == {h, src}
    c.judge(okc if okc or cond is None or not contains(cond, h) else okc, "path", "stop in " + fn["name"], e, "the walk stops at the source",
            "the predecessor walk continues while %s" % show(cond)[:120])
    # items and direction
    rets = [r for r in it.events if r.kind == "ret" and r.seq > e.seq and len(r.loops()) == 0 and not r.val.op == "empty"]
    rev = [x for x in it.events if x.kind in ("call", "icall") and x.f == "std::reverse" and x.seq > e.seq]
    pushes = [x for x in it.events if x.kind == "push" and x.seq > e.seq]
    inloop = [x for x in pushes if L in x.loops()]
    after = [x for x in pushes if L not in x.loops()]
    front = any(x.d.get("how") in ("front", "begin", "insert") for x in pushes)
    if front or len(inloop) != 1 or len(rev) > 1:
        c.und("path", e, "order of the path built in another form")
    else:
        c.judge(contains(inloop[0].val, h), "path", "nodes in " + fn["name"], inloop[0], "each vertex of the walk is listed",
                "the path lists %s instead of the current vertex" % show(inloop[0].val)[:100])
        tail = [x for x in after if contains(x.val, src)]
        c.judge(len(tail) == 1 and len(after) == 1, "path", "end in " + fn["name"], e, "the source vertex is listed once",
                "the path lists the source vertex %d times" % len(tail))
        if tail and tail[0].seq < inloop[0].seq:
            c.und("path", e, "source listed first")
        else:
            need = src is i1
            uncond = [x for x in rev if not (set(x.guards()) - set(e.guards()) - set(tail[0].guards() if tail else ()))]
            c.judge((len(uncond) == 1) == need and (need or not rev), "path", "direction in " + fn["name"], e, "the path runs from v1 to v2",
                    "the path runs from v2 to v1")
    # guards
    gs = e.guards()
    c.judge(mk("in", IDX, v1) in gs and mk("in", IDX, v2) in gs, "guard", "unknown in " + fn["name"], e, "both ids are known before the search",
            "an id that is not in the graph reaches the search")
    lev = [x for x in it.events if x.kind == "loop" and x.loop is L]
    for x in lev:
        reach = [g for g in x.guards() if any(t.op == "elem" and t.a[0] is not IDX and other in (t.a[1],) for t in subterms(g))]
        c.judge(bool(reach), "guard", "unreachable in " + fn["name"], x, "the walk starts only if the end was reached",
                "the predecessor walk starts even if the vertex was not reached: it does not end or leaves the graph")
        for name, same, own, want, msg in (
                ("reached", False, False, False, "the walk is refused although the end was reached"),
                ("same", True, True, False, "the path from a vertex to itself is refused"),
                ("isolated", False, True, True, "the predecessor walk starts although the end has no predecessor")):
            v = [scenario(g, v1, v2, other, same, own) for g in x.guards()]
            if want:
                wrong = True if v and reach and all(q is True for q in [scenario(g, v1, v2, other, same, own) for g in reach]) else False
            else:
                wrong = False in v
            if wrong:
                c.bad("guard", name + " in " + fn["name"], x, msg)
            else:
                c.ok("guard", x, "case " + name)


def scenario(t, v1, v2, other, same, own):
    """three-valued value of a guard when the two ids are equal (or not) and the end is its own predecessor (or not)"""
    if isconst(t):
        return bool(t.a[0])
    if t.op == "op" and t.a[0] in ("==", "!="):
        a, b = t.a[1], t.a[2]
        val = None
        if {a, b} == {v1, v2} or {a, b} == {elem(IDX, v1), elem(IDX, v2)}:
            val = same
        elif any(x is other and y.op == "elem" and y.a[1] is other and y.a[0] is not IDX for x, y in ((a, b), (b, a))):
            val = own
        return None if val is None else val == (t.a[0] == "==")
    if t.op == "op" and t.a[0] == "!":
        v = scenario(t.a[1], v1, v2, other, same, own)
        return None if v is None else not v
    if t.op in ("&&", "||") or t.op == "op" and t.a[0] in ("&&", "||"):
        w = t.op if t.op in ("&&", "||") else t.a[0]
        v = [scenario(x, v1, v2, other, same, own) for x in t.a if isinstance(x, Term)]
        hit = w == "||"
        return hit if hit in v else (not hit) if v and all(x is (not hit) for x in v) else None
    return None


def first_begin(t):
    for x in subterms(t):
        if x.op == "begin":
            yield x.a[0]


def is_pred_step(s, h, pred, it):
    return s.op == "elem" and s.a[1] is h and (s.a[0] is pred or it.store.get(pred) is s.a[0] or True)


def var_types(fn):
    return {n["n"]: n["t"] for n in walk(fn["body"]) if n.get("k") == "var"}
