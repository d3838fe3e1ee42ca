"""C10: every observation is registered exactly once in every index, under its own ids; rebuilding clears first."""
import itertools

from sa.core import *

NS = "McCalib::"
CAL = "McCalib::Calibration"
BO, OO, GO, CO, FR = (NS + x for x in ("BoardObs", "Object3DObs", "CameraGroupObs", "CameraObs", "Frame"))
T = mk("this")
# the key under which an entity is stored is the id it carries (decided by C05/C14-style rules at the insertion sites below)
OWNID = {("frames_", "frame_idx_"), ("cam_group_", "cam_group_idx_"), ("cams_", "cam_idx_"), ("boards_3d_", "board_id_"),
         ("object_3d_", "obj_id_")}


def F(*names):
    t = T
    for n in names:
        t = mk("elem", t, n) if isinstance(n, Term) else mk("fld", t, n)
    return t


def run(c):
    c.rule("index", "the observation is inserted exactly once into the index, whatever exists before")
    c.rule("owner", "it is inserted into the index of its own camera, board, object, group and frame")
    c.rule("key", "the entry gets a key of its own in the index")
    c.rule("ids", "the id lists get the id of the observation")
    c.rule("refs", "the observation refers to the camera and board of its own ids")
    c.rule("frames", "camera, board, object and group know the frame of the observation")
    c.rule("every", "observations are created for every entry of the lists they are built from")
    c.rule("member", "a camera group observation gets exactly the object observations of cameras of its group in its frame")
    c.rule("clear", "an index is emptied for every owner before its observations are registered again")
    for fn, it in c.stages():
        if fn.get("cls") != CAL:
            continue
        an = An(c, fn, it)
        for o in an.news(BO):
            an.board(o)
        for o in an.news(OO):
            an.object(o)
        for o in an.news(GO):
            an.group(o)
        short = fn["name"].split("::")[-1]
        if short in ("mergeAllObjectObs", "mergeAllCameraGroupObs"):
            an.cleared(OO if "Object" in short else GO)
    c.need("index", 10)
    c.need("clear", 8)
    return "other", ("Symbolic evaluation of every function that creates an observation; each insertion is normalised to the index "
                     "it reaches and counted under every truth assignment of its conditions.")


class An:
    def __init__(self, c, fn, it):
        self.c, self.fn, self.it = c, fn, it
        self.reg = {}
        for e in it.events:
            if e.kind in ("write", "mapins") and "val" in e.d and e.val.op == "new" and e.val.a[0] in (FR, CO):
                loc = e.loc if e.kind == "write" else mk("elem", e.cont, e.key)
                if loc.op == "elem" and loc.a[0] in (F("frames_"), F("cams_obs_")):
                    self.reg.setdefault(e.val, loc)
        self.memo = {}
        self.esc = set()
        for e in it.events:
            if e.kind in ("call", "icall") and e.f and not e.f.startswith(("std::make_shared", "std::move", "std::forward")):
                u = (e.d.get("expr") or {}).get("u")
                if u in c.prog.fns and e.f not in AVG + GRAPH:
                    continue
                for a in e.args:
                    if isinstance(a, Term) and a.op == "new":
                        self.esc.add(a)

    def news(self, cls):
        return list(dict.fromkeys(t for e in self.it.events for t in self.vals(e) if t.op == "new" and t.a[0] == cls))

    def vals(self, e):
        r = []
        if e.kind == "write":
            r = [e.loc, e.val]
        elif e.kind in ("push", "mapins", "setins") and "val" in e.d:
            r = [e.cont, e.val]
        out = []
        for t in r:
            while t.op in ("fld", "elem"):
                t = t.a[0]
            out.append(t)
        return out

    # ------------------------------------------------------------ normal form
    def canon(self, t):
        if not isinstance(t, Term):
            return tuple(self.canon(x) for x in t) if isinstance(t, tuple) else t
        r = self.memo.get(t)
        if r is not None:
            return r
        if t in self.reg:
            r = self.canon(self.reg[t])
        else:
            r = rebuild(t.op, tuple(self.canon(x) for x in t.a))
            if r.op == "ite":
                xs = self.cases(r)
                if len(set(xs)) == 1:
                    r = xs[0]
            if r.op == "lam" and isinstance(r.a[-1], Term):
                r = r.a[-1]
            if r.op == "fld" and isinstance(r.a[1], str):
                b = r.a[0]
                if b.op == "elem" and b.a[0].op == "fld" and b.a[0].a[0] is T:
                    if (b.a[0].a[1], r.a[1]) in OWNID:
                        r = b.a[1]
                if b.op == "mkpair" and r.a[1] in ("first", "second"):
                    r = b.a[0 if r.a[1] == "first" else 1]
                # ids of an observation found under a (camera, frame) pair are that pair
                if r.op == "fld" and r.a[1] in ("camera_id_", "frame_id_") and b.op == "elem" and b.a[0].op == "fld" and \
                        b.a[0].a[1] in ("board_observations_", "object_observations_"):
                    o = b.a[0].a[0]
                    if o.op == "elem" and o.a[0] is F("cams_obs_"):
                        r = self.canon(mk("fld", o.a[1], "first" if r.a[1] == "camera_id_" else "second"))
            if r.op == "mkpair" and r.a[0].op == r.a[1].op == "fld" and r.a[0].a[0] is r.a[1].a[0] and \
                    (r.a[0].a[1], r.a[1].a[1]) == ("first", "second"):
                r = r.a[0].a[0]
        self.memo[t] = r
        return r

    def cases(self, t):
        if t.op == "ite":
            return self.cases(t.a[1]) + self.cases(t.a[2])
        return [t]

    # ------------------------------------------------------------ insertions
    def inserts(self, val):
        """(event, container as written, canonical container, key) of every insertion of a value"""
        for e in self.it.events:
            if e.kind == "write" and self.same(e.val, val) and e.loc.op == "elem":
                yield e, e.loc.a[0], self.canon(e.loc.a[0]), e.loc.a[1]
            elif e.kind == "mapins" and "val" in e.d and self.same(e.val, val):
                yield e, e.cont, self.canon(e.cont), e.key
            elif e.kind in ("push", "setins") and "val" in e.d and self.same(e.val, val):
                yield e, e.cont, self.canon(e.cont), None

    def same(self, a, b):
        return a is b or self.canon(a) is self.canon(b)

    def creation(self, o):
        """first event that concerns the object"""
        for e in self.it.events:
            if e.kind == "write" and root(e.loc) is o:
                return e

    def idwrites(self, o, f):
        vs = []
        for e in self.it.events:
            if e.kind == "write" and e.loc is mk("fld", o, f) and e.val.op not in ("undef", "null") and not e.fn.get("ctor"):
                vs.append(self.canon(e.val))
        if not vs:
            vs = [self.canon(e.val) for e in self.it.events if e.kind == "write" and e.loc is mk("fld", o, f) and e.val.op != "undef"][-1:]
        vs = [x for v in vs for x in self.cases(v)]
        return vs[0] if len(set(vs)) == 1 else None

    # -------------------------------------------------------------- counting
    def count(self, evs, base):
        """numbers of insertions possible: set of counts over the truth assignments of the conditions; None if unknown"""
        conds = []
        for e in evs:
            conds.append([g for g in e.guards() if g not in base])
        atoms = []

        def collect(g):
            if g.op == "op" and g.a[0] == "!":
                collect(g.a[1])
            elif g.op in ("&&", "||") or g.op == "op" and g.a[0] in ("&&", "||"):
                for x in g.a:
                    if isinstance(x, Term):
                        collect(x)
            elif not isconst(g) and g not in atoms:
                n = unop("!", g)
                if n not in atoms:
                    atoms.append(g)
        for gs in conds:
            for g in gs:
                collect(g)
        if len(atoms) > 8:
            return None
        res = set()
        for vs in itertools.product((True, False), repeat=len(atoms)):
            true = {a if v else unop("!", a) for a, v in zip(atoms, vs)}
            n = 0
            for gs in conds:
                val = [self.ev(g, dict(zip(atoms, vs))) for g in gs]
                if False in val:
                    continue
                if None in val:
                    return None
                n += 1
            res.add(n)
        return res

    def ev(self, g, m):
        if g in m:
            return m[g]
        if isconst(g):
            return bool(g.a[0])
        n = unop("!", g)
        if n in m:
            return not m[n]
        if g.op == "op" and g.a[0] == "!":
            v = self.ev(g.a[1], m)
            return None if v is None else not v
        if g.op == "&&" or g.op == "op" and g.a[0] == "&&":
            v = [self.ev(x, m) for x in g.a if isinstance(x, Term)]
            return False if False in v else None if None in v else True
        if g.op == "||" or g.op == "op" and g.a[0] == "||":
            v = [self.ev(x, m) for x in g.a if isinstance(x, Term)]
            return True if True in v else None if None in v else False
        return None

    def label(self, t):
        x, r = t, []
        while x.op in ("fld", "elem"):
            if x.op == "fld":
                r.append(x.a[1])
            x = x.a[0]
        return ".".join(reversed(r))

    # -------------------------------------------------------------- obligations
    def require(self, o, what, kind, cont, val, base, loops, extra=()):
        """val (the observation, an id, a frame) goes exactly once into cont"""
        c = self.c
        rule = {"obs": "index", "id": "ids", "frame": "frames"}[kind]
        lab = self.label(cont)
        key = "%s into %s in %s" % (what, lab, self.fn["name"])
        mine = [(e, raw, k) for e, raw, cc, k in self.inserts(val) if cc is cont and not (kind == "id" and self.isother(e, o))]
        where = self.creation(o) or self.fn
        if not mine:
            others = [(e, cc, k) for e, raw, cc, k in self.inserts(val) if self.label(cc) == lab]
            if kind == "id":
                wrong = [e for e in self.it.events if e.kind == "push" and self.canon(e.cont) is cont]
                if wrong:
                    v = self.canon(wrong[0].val)
                    if self.known(v) and self.known(val):
                        return c.bad("ids", key, wrong[0], "the list %s gets %s instead of %s" % (lab, show(v)[:100], show(val)[:100]))
                    return c.und("ids", wrong[0], "%s gets %s" % (lab, show(v)[:100]))
            if others:
                e, cc, k = others[0]
                if self.known(cc) and self.known(cont):
                    return c.bad("owner", key, e, "the observation goes into %s, its own index is %s" % (show(cc)[:160], show(cont)[:160]))
                return c.und("owner", e, "%s" % show(cc)[:160])
            if self.replaced(cont):
                return c.und(rule, where, "%s is replaced in the same function" % lab)
            if o in self.esc:
                return c.und(rule, where, "the observation is handed to code that is not analysed")
            return c.bad(rule, key, where, "the %s is never recorded in %s" % (what if kind == "obs" else "%s of the %s" % (kind, what), show(cont)[:160]))
        for e, raw, k in mine:
            if kind == "obs" and k is not None:
                self.keyof(e, raw, cont, k, what, lab, key)
            elif kind == "frame" and k is not None:
                v = self.canon(val)
                if v.op == "elem" and v.a[1] is not self.canon(k):
                    if self.known(self.canon(k)):
                        c.bad("frames", key, e, "the frame %s is stored under %s" % (show(v)[:80], show(self.canon(k))[:80]))
                    else:
                        c.und("frames", e, show(k)[:80])
                else:
                    c.ok("frames", e, "under its own index")
        n = self.count([e for e, _, _ in mine], base)
        if n is None:
            return c.und(rule, mine[0][0], "conditions too complex")
        e = mine[0][0]
        ls = [tuple(l.uid for l in x.loops()) for x, _, _ in mine]
        if any(len(l) > len(loops) for l in ls):
            more = [l for l in mine[0][0].loops() if l.uid not in loops]
            return c.und(rule, e, "inserted in an inner loop")
        if kind == "obs":
            if n == {1}:
                c.ok(rule, e, "%s: exactly once" % lab)
            elif 0 in n and max(n) <= 1:
                c.bad(rule, key, e, "the %s is not recorded in %s in every case (only if %s)" % (what, lab, self.why(mine, base)))
            elif max(n) > 1:
                c.bad(rule, key, e, "the %s is recorded %d times in %s" % (what, max(n), lab))
        elif 0 in n:
            c.bad(rule, key, e, "%s is not updated in every case (only if %s)" % (lab, self.why(mine, base)))
        else:
            c.ok(rule, e, "%s gets %s" % (lab, show(val)[:80]))

    def replaced(self, cont):
        names = {t.a[1] for t in subterms(cont) if t.op == "fld" and t.a[0] is T}
        return any(e.kind == "write" and e.loc.op == "fld" and e.loc.a[0] is T and e.loc.a[1] in names and e.val is not EMPTY
                   for e in self.it.events)

    def isother(self, e, o):
        return False

    def why(self, mine, base):
        gs = [show(g)[:140] for e, _, _ in mine for g in e.guards() if g not in base]
        return "; ".join(gs[:2])

    def known(self, t):
        return not any(x.op in ("undef", "fix", "lastof", "call", "out", "such", "opaque") for x in subterms(t))

    def keyof(self, e, raw, cont, k, what, lab, key):
        c = self.c
        if cont in (F("cams_group_obs_"), F("cams_obs_")):
            return
        ck = self.canon(k)
        if k is mk("size", raw) or ck is mk("size", cont):
            return c.ok("key", e, "next free key of %s" % lab)
        if isconst(k) and k.a[0] == 0 and any(t.op == "new" for t in subterms(raw)):
            return c.ok("key", e, "first key of the new %s" % lab)
        if k.op == "size":
            if k.a[0].op in ("lam", "filled", "agg") or self.canon(k.a[0]) is cont:
                return c.ok("key", e, "next free key of %s" % lab)
            return c.bad("key", key, e, "the key in %s is the size of another container (%s): entries overwrite each other" % (show(cont)[:100], show(self.canon(k.a[0]))[:100]))
        if isconst(k):
            return c.bad("key", key, e, "every observation gets the key %s in %s" % (show(k), lab))
        if k.op == "op" and k.a[0] in ("-", "+") and any(isinstance(x, Term) and (x is mk("size", raw) or self.canon(x) is mk("size", cont)) for x in k.a[1:]):
            if k.a[0] == "-":
                return c.bad("key", key, e, "the key %s overwrites the last entry" % show(k)[:100])
            return c.ok("key", e, "a free key of %s" % lab)
        if k.op in ("fix", "lastof", "ite"):
            # an id the observation takes from the boards it is made of
            for t in subterms(k):
                if t.op == "fld" and t.a[1] in ("object_3d_id_", "camera_id_", "frame_id_", "board_id_") and t.a[0].op == "new":
                    v = self.idwrites(t.a[0], t.a[1])
                    if v is not None:
                        ck = v
                    break
        if any(ck is self.canon(x) for x in self.ids.values()) and what in ("board observation", "object observation"):
            # only the index of a (camera, frame) pair has at most one observation per board or object
            own = self.ids["board" if what[0] == "b" else "object"]
            uniq = cont.op == "fld" and cont.a[0].op == "elem" and cont.a[0].a[0] is F("cams_obs_") and ck is self.canon(own)
            if not uniq:
                return c.bad("key", key, e, "the key in %s is %s, which other observations share" % (lab, show(ck)[:80]))
        c.und("key", e, "key %s" % show(ck)[:80])

    def base(self, o, evs):
        """conditions common to the creation and every insertion"""
        cr = self.creation(o)
        return set(cr.guards()) if cr is not None else set()

    def board(self, o):
        c = self.c
        cam, board, frame = (self.idwrites(o, f) for f in ("camera_id_", "board_id_", "frame_id_"))
        if None in (cam, board, frame):
            return c.und("index", self.fn, "ids of the board observation not determined")
        self.ids = {"cam": cam, "board": board, "frame": frame}
        for f, exp in (("cam_", F("cams_", cam)), ("board_3d_", F("boards_3d_", board))):
            v = self.idwrites(o, f)
            if v is None:
                c.und("refs", self.fn, f)
            else:
                c.judge(True if v is exp else False if self.known(v) and v.op == "elem" else None, "refs", "%s in %s" % (f, self.fn["name"]), self.creation(o),
                        "%s is %s" % (f, show(exp)[:80]), "%s is %s, the ids say %s" % (f, show(v)[:80], show(exp)[:80]))
        base = self.base(o, ())
        loops = [l.uid for l in self.creation(o).loops()]
        co = F("cams_obs_", self.canon(mk("mkpair", cam, frame)))
        fr = F("frames_", frame)
        W = "board observation"
        for cont in (F("board_observations_"), F("cams_", cam, "board_observations_"), F("boards_3d_", board, "board_observations_"),
                     F("frames_", frame, "board_observations_"), mk("fld", co, "board_observations_")):
            self.require(o, W, "obs", cont, o, base, loops)
        for cont in (F("cams_", cam, "vis_board_idx_"), F("frames_", frame, "boards_idx_"), mk("fld", co, "board_idx_")):
            self.require(o, W, "id", cont, board, base, loops)
        for cont in (F("cams_", cam, "frames_"), F("boards_3d_", board, "frames_")):
            self.require(o, W, "frame", cont, fr, base, loops)
        # the camera observation itself, when it is new
        for n, loc in list(self.reg.items()):
            if n.a[0] != CO:
                continue
            ins = [(e, raw, cc, k) for e, raw, cc, k in self.inserts(n) if cc is not F("cams_obs_")]
            creg = [e for e in self.it.events if e.kind in ("write", "mapins") and e.d.get("val") is n]
            good = [x for x in ins if x[2] is mk("fld", fr, "cam_obs_")]
            key = "camera observation in " + self.fn["name"]
            if self.canon(loc) is not co:
                c.bad("owner", key, creg[0], "the camera observation is stored under %s" % show(self.canon(loc))[:160])
            elif not good:
                c.bad("index", key, creg[0], "a new camera observation is not recorded in its frame")
            else:
                self.keyof(good[0][0], good[0][1], good[0][2], good[0][3], "camera observation", "cam_obs_", key)
                rest = [g for g in good[0][0].guards() if g not in creg[0].guards()]
                c.judge(False if rest else True if len(good) == 1 else None, "index", key, good[0][0], "recorded in its frame",
                        "recorded in its frame only if %s" % (show(rest[0])[:160] if rest else ""))

    def object(self, o):
        c = self.c
        obj, cam, frame = (self.idwrites(o, f) for f in ("object_3d_id_", "camera_id_", "frame_id_"))
        if None in (obj, cam, frame):
            return c.und("index", self.fn, "ids of the object observation not determined")
        self.ids = {"cam": cam, "object": obj, "frame": frame}
        pair = self.canon(mk("mkpair", cam, frame))
        W = "object observation"
        co, fr = F("cams_obs_", pair), F("frames_", frame)
        conts = [F("object_observations_"), mk("fld", co, "object_observations_"), mk("fld", fr, "object_observations_"),
                 F("cams_", cam, "object_observations_"), F("object_3d_", obj, "object_observations_")]
        base, loops = self.common(o, W)
        if base is None:
            return
        v = self.idwrites(o, "object_3d_")
        exp = F("object_3d_", obj)
        if v is not None:
            c.judge(True if v is exp else False if self.known(v) and v.op == "elem" else None, "refs", "object_3d_ in " + self.fn["name"], self.creation(o),
                    "object_3d_ is %s" % show(exp)[:80], "object_3d_ is %s, the id says %s" % (show(v)[:80], show(exp)[:80]))
        for cont in conts:
            self.require(o, W, "obs", cont, o, base, loops)
        for cont in (mk("fld", co, "object_idx_"), mk("fld", fr, "objects_idx_"), F("cams_", cam, "vis_object_idx_")):
            self.require(o, W, "id", cont, obj, base, loops)
        self.require(o, W, "frame", F("object_3d_", obj, "frames_"), fr, base, loops)

    def common(self, o, what):
        """conditions shared by all insertions: may only say that the observation is not empty"""
        c = self.c
        cr = self.creation(o)
        ins = [e for e, raw, cc, k in self.inserts(o)]
        if not ins:
            c.bad("index", "%s in %s" % (what, self.fn["name"]), cr, "the %s is never registered" % what)
            return None, None
        common = set(ins[0].guards())
        for e in ins[1:]:
            common &= set(e.guards())
        key = "%s in %s" % (what, self.fn["name"])
        for g in common - set(cr.guards()):
            if self.nonempty(g, o):
                c.ok("every", ins[0], "registered when it holds something")
            elif g.op == "op" and g.a[0] in ("<", ">", "<=", ">=") and any(isinstance(x, Term) and x.op == "size" for x in g.a[1:]) and \
                    any(isconst(x) for x in g.a[1:] if isinstance(x, Term)):
                c.bad("every", key, ins[0], "an observation is registered only if %s" % show(g)[:160])
            elif self.known(g) and not contains(g, o):
                c.bad("every", key, ins[0], "an observation is registered only if %s" % show(g)[:160])
            else:
                c.und("every", ins[0], show(g)[:160])
        loops = cr.loops()
        for l in loops:
            f = loop_full(l)
            c.judge(f, "every", "loop in " + self.fn["name"], cr, "all of %s" % show(l.cont if l.cont is not None else l.bound)[:80],
                    "the loop over %s leaves entries out" % show(l.cont if l.cont is not None else l.bound)[:80])
        fs = [g for g in cr.guards() if not benign_guard(g)]
        if fs:
            c.judge(False if self.known(fs[0]) else None, "every", "creation in " + self.fn["name"], cr, "", "an observation is created only if %s" % show(fs[0])[:160])
        return common | set(cr.guards()), [l.uid for l in loops]

    def nonempty(self, g, o):
        if benign_guard(g):
            return True
        return False

    def group(self, o):
        c = self.c
        W = "camera group observation"
        gv = self.idwrites(o, "cam_group_")
        if gv is None:
            gv = next((self.canon(e.val) for e in self.it.events if e.kind == "write" and e.loc is mk("fld", o, "cam_group_") and e.val.op == "elem"), None)
        cr = self.creation(o)
        frl = [l for l in cr.loops() if l.cont is F("frames_")]
        if gv is None or gv.op != "elem" or gv.a[0] is not F("cam_group_") or len(frl) != 1:
            return c.und("index", self.fn, "group or frame of the camera group observation not determined")
        grp, frame = gv.a[1], frl[0].key
        self.ids = {"group": grp, "frame": frame}
        gi = self.idwrites(o, "cam_group_idx_")
        fr = F("frames_", frame)
        base, loops = self.common(o, W)
        if base is None:
            return
        # the global table: key is the pair of ids
        tab = [(e, k) for e, raw, cc, k in self.inserts(o) if cc is F("cams_group_obs_")]
        want = self.canon(mk("mkpair", grp, frame))
        key = "cams_group_obs_ in " + self.fn["name"]
        if not tab:
            c.bad("index", key, cr, "the camera group observation is not recorded in cams_group_obs_")
        for e, k in tab:
            ck = self.canon(k)
            c.judge(True if ck is want else False if self.known(ck) else None, "owner", key, e, "under (group, frame)",
                    "stored under %s, its ids are %s" % (show(ck)[:120], show(want)[:120]))
        self.require(o, W, "obs", mk("fld", fr, "cam_group_observations_"), o, base, loops)
        self.require(o, W, "id", mk("fld", fr, "cam_group_idx_"), grp, base, loops)
        self.require(o, W, "frame", F("cam_group_", grp, "frames_"), fr, base, loops)
        # its object observations
        grpc = F("cam_group_", grp)
        seen = {}
        for e in self.it.events:
            cont = e.loc.a[0] if e.kind == "write" and e.loc.op == "elem" else e.d.get("cont") if e.kind in ("mapins", "push") and "val" in e.d else None
            if cont is None or self.c.ty(self.fn, e.val) != OO or e.val.op == "new":
                continue
            cc = self.canon(cont)
            if root(cont) is o:
                seen.setdefault("own", []).append(e)
            elif cc.op == "fld" and cc.a[1] == "object_observations_" and cc.a[0].op == "elem" and cc.a[0].a[0] is F("cam_group_"):
                seen.setdefault("group", []).append((e, cc))
        key = "objects of a group in " + self.fn["name"]
        own = seen.get("own", [])
        if not own:
            return c.bad("member", key, cr, "the camera group observation gets no object observations")
        for e in own:
            self.member(e, o, grpc, fr, key)
            self.memberkey(e, "the camera group observation")
            ids = [x for x in self.it.events if x.kind == "push" and x.cont is mk("fld", o, "object_idx_")]
            x = self.canon(e.val)
            if not ids:
                c.bad("ids", "object_idx_ in " + self.fn["name"], e, "the object ids of the camera group observation are not recorded")
            for y in ids:
                v = self.canon(y.val)
                c.judge(True if v is mk("fld", x, "object_3d_id_") else False if v.op == "fld" and v.a[0] is x else None, "ids",
                        "object_idx_ in " + self.fn["name"], y, "object_idx_ gets the object id",
                        "object_idx_ gets %s instead of the object id" % show(v)[:120])
        g2 = seen.get("group", [])
        if not g2:
            c.bad("index", "cam_group_.object_observations_ in " + self.fn["name"], cr, "the camera group does not get its object observations")
        for e, cc in g2:
            self.memberkey(e, "the camera group")
            if cc.a[0] is not grpc:
                c.judge(False if self.known(cc) else None, "owner", "cam_group_.object_observations_ in " + self.fn["name"], e, "",
                        "the object observation goes into %s instead of %s" % (show(cc)[:120], show(grpc)[:120]))
                continue
            e0 = own[0]
            gs, g0 = set(e.guards()), set(e0.guards())
            same = gs == g0
            if len(g2) == 1 and len(own) == 1:
                if same and [l.uid for l in e.loops()] == [l.uid for l in e0.loops()]:
                    c.ok("index", e, "each object observation of the group once")
                elif gs > g0 and not all(benign_guard(x) for x in gs - g0):
                    c.bad("index", "cam_group_.object_observations_ in " + self.fn["name"], e, "only if %s" % show(sorted(gs - g0, key=show)[0])[:160])
                else:
                    c.und("index", e, "conditions differ")
            else:
                n = self.count([x for x, _ in g2], g0)
                c.judge(None if n is None else n == {1}, "index", "cam_group_.object_observations_ in " + self.fn["name"], e, "once",
                        "an object observation is inserted %s times" % sorted(n or ()))

    def memberkey(self, e, who):
        """key of an object observation in the index of a group or of a group observation"""
        c = self.c
        if e.kind == "push":
            return
        raw, k = (e.loc.a[0], e.loc.a[1]) if e.kind == "write" else (e.cont, e.key)
        key = "key in %s in %s" % (who, self.fn["name"])
        x, ck = self.canon(e.val), self.canon(k)
        if k is mk("size", raw) or ck is mk("size", self.canon(raw)):
            c.ok("key", e, "next free key of %s" % who)
        elif isconst(k) or ck.op == "fld" and ck.a[0] is x and ck.a[1] in ("camera_id_", "frame_id_", "object_3d_id_") or ck in self.ids.values():
            c.bad("key", key, e, "the key in %s is %s, which other observations share" % (who, show(ck)[:120]))
        elif k.op == "size" and self.known(ck) and ck.a[0].op == "fld" and ck.a[0].a[1] != "object_observations_":
            c.bad("key", key, e, "the key in %s is the size of another container (%s)" % (who, show(ck)[:120]))
        else:
            c.und("key", e, "key %s" % show(ck)[:80])

    def member(self, e, o, grpc, fr, key):
        c = self.c
        x = self.canon(e.val)
        src = x.a[0] if x.op == "elem" else None
        exp = mk("fld", fr, "object_observations_")
        if src is not exp:
            return c.judge(False if src is not None and self.known(src) else None, "member", key, e, show(x)[:100],
                           "the object observation is taken from %s, those of the frame are %s" % (show(src)[:100], show(exp)[:100]))
        inner = [l for l in e.loops() if l.uid not in [y.uid for y in self.creation(o).loops()]]
        for l in inner:
            if loop_full(l) is False:
                return c.bad("member", key, e, "the loop over the object observations leaves entries out")
        gs = [self.canon(g) for g in e.guards() if not benign_guard(g)]
        lists = mk("fld", grpc, "cam_idx")
        cams = mk("fld", grpc, "cameras_")
        camid = mk("fld", x, "camera_id_")
        good = False
        for g in gs:
            f = [t for t in subterms(g) if t.op == "call" and t.a[0] in ("std::find", "std::count", "std::binary_search")]
            for t in f:
                b, v = t.a[1], t.a[3] if len(t.a) > 3 else None
                src2 = b.a[0] if b.op == "begin" else None
                if src2 is None or v is None:
                    continue
                if self.canon(src2) is lists and self.canon(v) is camid:
                    pos = g.op == "op" and g.a[0] in ("!=", ">") or t.a[0] == "std::binary_search" and g is t
                    neg = g.op == "op" and g.a[0] == "=="
                    if neg:
                        return c.bad("member", key, e, "object observations of cameras outside the group are used")
                    good = good or pos
                elif self.known(self.canon(src2)) and self.known(self.canon(v)):
                    return c.bad("member", key, e, "the camera %s is looked up in %s instead of %s in %s" % (
                        show(self.canon(v))[:80], show(self.canon(src2))[:80], show(camid)[:80], show(lists)[:80]))
            for t in subterms(g):
                if t.op == "in" and self.canon(t.a[0]) is cams and self.canon(t.a[1]) is camid:
                    good = g is t
        rest = [g for g in gs if not any(t.op == "call" and t.a[0] in ("std::find", "std::count", "std::binary_search") for t in subterms(g)) and
                not contains(g, cams)]
        if good and not rest:
            c.ok("member", e, "camera in the group")
        elif not gs:
            c.bad("member", key, e, "object observations are used without a check that their camera belongs to the group")
        elif good and rest and self.known(rest[0]):
            c.bad("member", key, e, "an object observation of the group is used only if %s" % show(rest[0])[:160])
        else:
            c.und("member", e, "; ".join(show(g)[:80] for g in gs))

    # ------------------------------------------------------------------ clear
    def cleared(self, cls):
        c = self.c
        req = {OO: [("cams_", "object_observations_"), ("cams_", "vis_object_idx_"), ("cam_group_", "object_observations_"),
                    ("cams_group_obs_", "object_observations_"), ("cams_group_obs_", "object_idx_"), ("cams_obs_", "object_observations_"),
                    ("cams_obs_", "object_idx_"), ("frames_", "object_observations_"), ("frames_", "objects_idx_"),
                    ("object_3d_", "object_observations_"), ("object_observations_",)],
               GO: [("frames_", "cam_group_observations_"), ("frames_", "cam_group_idx_"), ("cams_group_obs_",)]}[cls]
        news = self.news(cls)
        if not news:
            return c.und("clear", self.fn, "no observation is created")
        t0 = min(self.creation(o).seq for o in news)
        for path in req:
            lab = ".".join(path)
            key = "%s in %s" % (lab, self.fn["name"])
            w = [e for e in self.it.events if e.kind == "write" and e.val is EMPTY and self.match(e.loc, path) or
                 e.kind == "write" and e.val is EMPTY and len(path) == 2 and e.loc is F(path[0])]
            if not w:
                c.bad("clear", key, self.fn, "%s is not emptied before the observations are registered again" % lab)
                continue
            e = w[0]
            if e.seq > t0:
                c.bad("clear", key, e, "%s is emptied after observations were registered" % lab)
                continue
            if len(path) == 2 and e.loc is not F(path[0]):
                k = e.loc.a[0].a[1]
                ls = [l for l in e.loops() if l.key is k]
                if not ls:
                    c.judge(False if isconst(k) else None, "clear", key, e, lab, "only the entry %s of %s is emptied" % (show(k), path[0]))
                    continue
                if ls[0].cont is not F(path[0]):
                    c.und("clear", e, "loop over %s" % show(ls[0].cont)[:80])
                    continue
                f = loop_full(ls[0])
                if f is False:
                    c.bad("clear", key, e, "not every entry of %s is emptied" % path[0])
                    continue
            gs = [g for g in e.guards() if not benign_guard(g)]
            if gs:
                c.bad("clear", key, e, "%s is emptied only if %s" % (lab, show(gs[0])[:160]))
            else:
                c.ok("clear", e, "%s emptied for every owner" % lab)

    def match(self, loc, path):
        if len(path) == 1:
            return loc is F(path[0])
        return loc.op == "fld" and loc.a[1] == path[1] and loc.a[0].op == "elem" and loc.a[0].a[0] is F(path[0])
