"""Reference-frame types of poses.

A pose term has a type (dst, src): it maps coordinates of frame src to frame dst. Frames are cameras ('C', id) and boards
('B', id); the frame of a camera group is that of its reference camera, the frame of an object that of its reference board.
Types are computed structurally; None means unknown, ID the identity (any frame to itself). A Mismatch is raised only when two
frames that have to be the same are definitely different.
"""
from .engine import *

ID = "identity"
CAL = mk("cal")
NS = "McCalib::"
BO, OO, GO, CO, FR = (NS + x for x in ("BoardObs", "Object3DObs", "CameraGroupObs", "CameraObs", "Frame"))
OWNER = {"cams_": ("cam_idx_",), "boards_3d_": ("board_id_",), "object_3d_": ("obj_id_",), "cam_group_": ("cam_group_idx_",),
         "frames_": ("frame_idx_",)}
PAIRKIND = {"board_pose_pairs_": "B", "inter_board_transform_": "B", "camera_pose_pairs_": "C", "inter_camera_transform_": "C",
            "object_pose_pairs_": "O", "inter_object_transform_": "O", "no_overlap_camgroup_pair_pose_": "G"}
GRAPHKIND = {"covis_boards_graph_": "B", "covis_camera_graph_": "C", "covis_objects_graph_": "O", "no_overlap_camgroup_graph_": "G"}
UNKNOWN = ("undef", "fix", "lastof", "call", "out", "opaque", "sum", "collect", "such", "ite", "agg", "filled", "lam", "var", "trunc", "op")


class Mismatch(Exception):
    pass


def G(name, k):
    return mk("elem", mk("fld", CAL, name), k)


class Frames:
    def __init__(self, c, fn, it, pairs, hand=None):
        self.c, self.fn, self.it, self.pairs, self.hand = c, fn, it, pairs, hand or {}
        self.iscal = fn.get("cls") == NS + "Calibration"
        self.memo, self.tys = {}, {}
        self.eqs = []          # equalities that hold in the current context
        self.env = {}          # loop variables under induction
        self.newfld = {}
        for e in it.events:
            if e.kind == "write" and e.loc.op == "fld" and e.loc.a[0].op == "new" and e.loc.a[1] in ("id_ref_cam_", "ref_board_id_") \
                    and e.val.op != "undef":
                self.newfld[e.loc] = e.val

    # --------------------------------------------------------------- entities
    def ty(self, t):
        r = self.tys.get(t)
        if r is None:
            r = self.tys[t] = self.c.ty(self.fn, t) or ""
        return r

    def loc(self, t):
        """location whose (possibly updated) content a container term is"""
        n = 0
        while isinstance(t, Term) and n < 30:
            n += 1
            if t.op == "lam":
                t = t.a[1]
            elif t.op == "fix":
                t = t.a[2]
            elif t.op in ("agg", "filled"):
                t = t.a[0] if t.op == "agg" else t.a[1]
            elif t.op == "push":
                t = t.a[0]
            elif t.op == "ite":
                x, y = self.loc(t.a[1]), self.loc(t.a[2])
                return x if x is y or y.op == "empty" else y if x.op == "empty" else t
            else:
                return t
        return t

    def canon(self, t):
        if not isinstance(t, Term):
            return tuple(self.canon(x) for x in t) if isinstance(t, tuple) else t
        r = self.memo.get(t)
        if r is not None:
            return r
        if t.op == "this":
            r = CAL if self.iscal else t
        elif t.op == "fld" and t in self.newfld:
            r = self.canon(self.newfld[t])
        else:
            r = self.canon1(t)
        self.memo[t] = r
        return r

    def canon1(self, t):
        r = rebuild(t.op, tuple(self.canon(x) for x in t.a))
        if r.op == "fld" and isinstance(r.a[1], str):
            b, n = r.a
            src = t.a[0] if t.op == "fld" else None
            bt = self.ty(src) if src is not None else ""
            if n in ("cam_", "camera_") and bt in (BO, OO):
                return self.G("cams_", self.canon(mk("fld", src, "camera_id_")))
            if n == "board_3d_" and bt == BO:
                return self.G("boards_3d_", self.canon(mk("fld", src, "board_id_")))
            if n == "object_3d_" and bt == OO:
                return self.G("object_3d_", self.canon(mk("fld", src, "object_3d_id_")))
            if n == "cam_group_" and bt == GO:
                return self.G("cam_group_", self.canon(mk("fld", src, "cam_group_idx_")))
            if b.op == "elem" and b.a[0].op == "fld" and b.a[0].a[0] is CAL and n in OWNER.get(b.a[0].a[1], ()):
                return b.a[1]
            if b.op == "mkpair" and n in ("first", "second"):
                return b.a[0 if n == "first" else 1]
            if b.op == "elem" and b.a[0].op == "fld":
                cont, key = b.a
                own, idx = cont.a[0], cont.a[1]
                if idx in ("board_observations_", "object_observations_", "cam_group_observations_", "cam_obs_") and own.op == "elem" and own.a[0].op == "fld":
                    if own.a[0].a[1] == "frames_" and n == "frame_id_":
                        return own.a[1]
                    if own.a[0].a[1] == "cams_obs_" and n in ("camera_id_", "frame_id_"):
                        return self.canon(mk("fld", own.a[1], "first" if n == "camera_id_" else "second"))
                    if own.a[0].a[1] in ("boards_3d_",) and n == "board_id_" or own.a[0].a[1] == "object_3d_" and n == "object_3d_id_" or \
                            own.a[0].a[1] == "cams_" and n == "camera_id_":
                        return own.a[1]
                if idx in ("board_observations_", "object_observations_") and n == "camera_id_" and self.ty2(own) == NS + "Camera":
                    return self.canon(mk("fld", own, "cam_idx_"))
                if idx == "object_observations_" and n == "object_3d_id_" and self.ty2(own) == NS + "Object3D":
                    return self.canon(mk("fld", own, "obj_id_"))
                if idx == "board_observations_" and n == "board_id_" and self.ty2(own) == NS + "Board":
                    return self.canon(mk("fld", own, "board_id_"))
                if idx == "board_observations_" and n in ("camera_id_", "frame_id_") and \
                        (self.ty2(own) == OO or own.op == "elem" and own.a[0].op == "fld" and own.a[0].a[1] == "object_observations_"):
                    return self.canon(mk("fld", own, n))
                v = self.found(own, key, {"cam_group_observations_": "cam_group_idx_", "object_observations_": "object_idx_" if self.ty2(own) != FR else "objects_idx_",
                                          "board_observations_": "board_idx_" if self.ty2(own) != FR else "boards_idx_"}.get(idx))
                if v is not None and n == {"cam_group_observations_": "cam_group_idx_", "object_observations_": "object_3d_id_", "board_observations_": "board_id_"}[idx]:
                    return v
                if idx == "cams_group_obs_" and n == "cam_group_idx_":
                    return self.canon(mk("fld", key, "first"))
        if r.op == "elem":
            b, k = r.a
            if self.isthis(b, k):
                return k.a[0]
            if b.op == "fld" and b.a[1] == "cameras_" and not b.a[0] is CAL:
                return self.G("cams_", k)
            if b.op == "fld" and b.a[1] == "boards_" and not b.a[0] is CAL:
                return self.G("boards_3d_", k)
            if b.op == "fld" and b.a[1] == "frames_" and b.a[0] is not CAL:
                return self.G("frames_", k)
            if b.op == "call" and b.a[0] == "Graph::shortestPathBetween" and len(b.a) >= 4:
                if k is C(0):
                    return b.a[2]
                if k is mk("op", "-", mk("size", b), C(1)) or k is binop("-", mk("size", b), C(1)):
                    return b.a[3]
        if r.op == "op" and r.a[0] == "+" and len(r.a) == 3:
            return binop("+", r.a[1], r.a[2])
        if r.op == "op" and r.a[0] == "-" and len(r.a) == 3:
            return binop("-", r.a[1], r.a[2])
        return r

    def isthis(self, b, k):
        return k.op == "fld" and k.a[0].op == "this" and not self.iscal and b.op == "fld" and b.a[0] is CAL and k.a[1] in OWNER.get(b.a[1], ()) and \
            self.fn.get("cls") == {"cams_": NS + "Camera", "boards_3d_": NS + "Board", "object_3d_": NS + "Object3D",
                                   "cam_group_": NS + "CameraGroup", "frames_": FR}[b.a[1]]

    def G(self, field, k):
        t = G(field, k)
        return k.a[0] if t.op == "elem" and self.isthis(t.a[0], k) else t

    def ty2(self, t):
        return self.c.ty(self.fn, t) or ""

    def found(self, own, key, lst):
        """value looked up when the key is the position of a value in the id list that runs parallel to the index"""
        if lst is None or key.op != "call":
            return None
        l = mk("fld", own, lst)
        if key.a[0] in ("__gnu_cxx::operator-", "std::operator-"):
            f, b = key.a[1], key.a[2]
        elif key.a[0] == "std::distance":
            b, f = key.a[1], key.a[2]
        else:
            return None
        if f.op == "call" and f.a[0] == "std::find" and len(f.a) >= 4 and b.op == "begin" and b.a[0] is l and f.a[1].op == "begin" and f.a[1].a[0] is l:
            return f.a[3]
        return None

    def cam(self, t):
        return ("C", self.canon(t))

    def board(self, t):
        return ("B", self.canon(t))

    def obj(self, o):
        """frame of an object (term of the object)"""
        return self.board(mk("fld", o, "ref_board_id_"))

    def group(self, g):
        return self.cam(mk("fld", g, "id_ref_cam_"))

    def kindframe(self, kind, t):
        if kind == "C":
            return ("C", self.canon(t))
        if kind == "B":
            return ("B", self.canon(t))
        if kind == "O":
            return ("B", self.canon(mk("fld", self.G("object_3d_", self.canon(t)), "ref_board_id_")))
        return ("C", self.canon(mk("fld", self.G("cam_group_", self.canon(t)), "id_ref_cam_")))

    # --------------------------------------------------------------- equality
    PURE = ("std::min_element", "std::max_element", "std::min", "std::max")

    def known(self, t):
        """the term is built from fields, keys, parameters and pure functions of them only"""
        if t.op == "call":
            if not (str(t.a[0]).startswith("Graph::") or t.a[0] in self.PURE):
                return False
        elif t.op in ("begin", "end", "var", "deref"):
            pass
        elif t.op == "op":
            if t.a[0] not in ("+", "-"):
                return False
        elif t.op in UNKNOWN:
            return False
        if t.op in ("var", "L"):
            return True
        return all(self.known(x) for x in t.a if isinstance(x, Term))

    def same(self, a, b):
        """True / False (definitely different) / None"""
        if a == b:
            return True
        if a[0] == "A" or b[0] == "A":
            return False if a[0] == b[0] and a[1] is b[1] and a[2] != b[2] else None
        if "G?" in (a[0], b[0]):
            o = b if a[0] == "G?" else a
            if o[0] == "B":
                return False
            if o[0] == "G?":
                return True
            t = o[1]
            return True if t.op == "fld" and t.a[1] == "id_ref_cam_" else False if t.op == "fld" and t.a[1] in ("camera_id_",) else None
        if a[0] != b[0]:
            return False
        if self.equal(a[1], b[1]):
            return True
        return False if self.known(a[1]) and self.known(b[1]) else None

    def equal(self, a, b):
        if a is b:
            return True
        if not self.eqs:
            return False
        s = self.closure(a, b)
        return b in s or bool(s & self.closure(b, a))

    def closure(self, a, b):
        """terms equal to a by the equalities that hold here"""
        todo, seen = [a], {a}
        while todo and b not in seen and len(seen) < 200:
            x = todo.pop()
            for p, q in self.eqs:
                for u, v in ((p, q), (q, p)):
                    ys = []
                    if u is x:
                        ys.append(v)
                    elif contains(x, u) and len(seen) < 60:
                        ys.append(self.canon(subst(x, {u: v})))
                    for y in ys:
                        if y not in seen:
                            seen.add(y)
                            todo.append(y)
        return seen

    def assume(self, guards):
        n = len(self.eqs)
        for g in guards:
            self.assume1(g)
        return n

    def assume1(self, g):
        if g.op in ("&&",) or g.op == "op" and g.a[0] in ("&&", "&"):
            for x in g.a:
                if isinstance(x, Term):
                    self.assume1(x)
        elif g.op == "op" and g.a[0] == "==" and len(g.a) == 3:
            self.eqs.append((self.canon(g.a[1]), self.canon(g.a[2])))

    # --------------------------------------------------------------- slots
    def slot(self, s):
        """type of the pose stored at a location, None if it is no pose slot"""
        if s.op == "fld":
            b, n = s.a
            t = self.ty(b)
            if n == "pose_" and t == BO:
                return self.cam(mk("fld", b, "camera_id_")), self.board(mk("fld", b, "board_id_"))
            if n == "pose_" and t == OO:
                return self.cam(mk("fld", b, "camera_id_")), self.obj(mk("fld", b, "object_3d_"))
            if n == "group_pose_" and t == OO:
                return ("G?", None), self.obj(mk("fld", b, "object_3d_"))
        if s.op == "elem":
            l = self.loc(s.a[0])
            if l.op == "fld":
                b, n = l.a
                k = s.a[1]
                if n == "object_pose_" and self.ty(b) == GO:
                    return self.group(mk("fld", b, "cam_group_")), self.kindframe("O", k)
                if n == "relative_camera_pose_":
                    return self.cam(k), self.group(b)
                if n == "relative_board_pose_":
                    return self.obj(b), self.board(k)
        return None

    def pairelem(self, t):
        """(field, key) when the term is an entry of a table of pair poses"""
        if t.op != "elem":
            return None
        l = self.loc(t.a[0])
        if l.op == "fld" and l.a[1] in PAIRKIND:
            return l.a[1], t.a[1]
        if l.op == "elem":
            m = self.loc(l.a[0])
            if m.op == "fld" and m.a[1] in PAIRKIND and m.a[1].endswith("pairs_"):
                return m.a[1], l.a[1]
        return None

    def pairframes(self, field, key):
        key = self.canon(key)
        k = PAIRKIND[field]
        return (self.kindframe(k, mk("fld", key, "first") if key.op != "mkpair" else key.a[0]),
                self.kindframe(k, mk("fld", key, "second") if key.op != "mkpair" else key.a[1]))

    # --------------------------------------------------------------- types
    def join(self, a, b, what):
        if a is None or b is None:
            return a if b is None else b
        if a == ID:
            return b
        if b == ID:
            return a
        for x, y, n in ((a[0], b[0], "target"), (a[1], b[1], "source")):
            if self.same(x, y) is False:
                raise Mismatch("%s: %s and %s" % (what, self.sh(a), self.sh(b)))
        return a

    def sh(self, t):
        if t is None:
            return "?"
        if t == ID:
            return "identity"

        def f(x):
            k, v = x[0], x[1]
            return {"C": "camera", "B": "board", "G?": "camera group", "A": "frame of"}[k] + (" " + show(v) if isinstance(v, Term) else "")
        return "%s <- %s" % (f(t[0])[:150], f(t[1])[:150])

    def compose(self, a, b):
        if a is None or b is None:
            return None
        if a == ID:
            return b
        if b == ID:
            return a
        if self.same(a[1], b[0]) is False:
            raise Mismatch("the poses (%s) and (%s) do not chain" % (self.sh(a), self.sh(b)))
        return a[0], b[1]

    def flip(self, a):
        return a if a is None or a == ID else (a[1], a[0])

    def ptype(self, t, d=0):
        if d > 25:
            return None
        op = t.op
        if op == "pose":
            r, x = self.rtype(t.a[0], d + 1), self.ttype(t.a[1], d + 1)
            if r is None or x is None:
                return None
            return self.join(r, x, "rotation and translation are of different poses")
        if op == "mul":
            r = self.ptype(t.a[0], d + 1)
            for x in t.a[1:]:
                r = self.compose(r, self.ptype(x, d + 1))
            return r
        if op == "inv":
            return self.flip(self.ptype(t.a[0], d + 1))
        if op == "eye" or op == "lit" and self.iseye(t):
            return ID
        if op == "lit" and len(t.a) == 18 and all(isconst(x) for x in t.a[2:]):
            raise Mismatch("a pose is set to the constants %s, which are not those of the identity" % ", ".join(show(x) for x in t.a[2:]))
        if op == "call" and t.a[0] in self.hand:
            return self.hand[t.a[0]](self, t, d)
        if op == "such":
            k1, k, v = t.a
            self.eqs.append((self.canon(k1), self.canon(k)))
            return self.ptype(v, d + 1)
        if op == "ite":
            return self.alt(t, self.ptype, d)
        if op == "fix":
            return self.fix(t, self.ptype, d)
        if op == "lam":
            if t in self.env:
                return self.env[t]
            return None
        if op == "lastof":
            return self.ptype(t.a[2], d + 1)
        if op == "arg":
            return ("A", t, "d"), ("A", t, "s")
        if op == "elem":
            p = self.pairelem(t)
            if p:
                o = self.pairs.get(p[0])
                a, b = self.pairframes(*p)
                return None if o is None else (b, a) if o == "ba" else (a, b)
            return self.listtype(t.a[0], d)
        return None

    def listtype(self, l, d):
        """common type of the entries of a list of poses"""
        if l.op == "arg":
            return ("A", l, "d"), ("A", l, "s")
        if l.op == "collect":
            r = self.ptype(l.a[2], d + 1)
            if l.a[1] is not EMPTY and l.a[1].op not in ("vec", "mat0"):
                r = self.join(r, self.listtype(l.a[1], d + 1), "entries of different poses in one list")
            return r
        if l.op == "push":
            if l.a[0] is EMPTY or l.a[0].op == "lam":
                return self.ptype(l.a[1], d + 1)
            return self.join(self.listtype(l.a[0], d + 1), self.ptype(l.a[1], d + 1), "entries of different poses in one list")
        if l.op == "agg":
            r = None
            for p, v in l.a[1]:
                x = self.ptype(v, d + 1)
                r = x if r is None else self.join(r, x, "entries of different poses in one list")
            return r
        if l.op == "fix":
            return self.listtype(l.a[3], d + 1)
        if l.op == "ite":
            n = self.assume([l.a[0]])
            try:
                a = self.listtype(l.a[1], d + 1)
                b = self.listtype(l.a[2], d + 1)
                return a if b is None else b if a is None else self.join(a, b, "entries of different poses in one list")
            finally:
                pass
        return None

    def iseye(self, t):
        r, c = t.a[0], t.a[1]
        r, c = (x.a[0] if isinstance(x, Term) else x for x in (r, c))
        v = t.a[2:]
        if len(v) != r * c or r != c:
            return False
        return all(isconst(x) and float(x.a[0]) == (1.0 if i // c == i % c else 0.0) for i, x in enumerate(v))

    def alt(self, t, f, d):
        """a conditional: both alternatives, each under its condition"""
        n = self.assume([t.a[0]])
        a = f(t.a[1], d + 1)
        del self.eqs[n:]
        self.assume([unop("!", t.a[0])])
        b = f(t.a[2], d + 1)
        del self.eqs[n:]
        if a is None or b is None:
            return None
        return self.join(a, b, "the alternatives are different poses")

    def emptypath(self, g):
        x = None
        if g.op == "isempty":
            x = g.a[0]
        elif g.op == "op" and g.a[0] in ("==", "<", "<=") and any(isinstance(y, Term) and isconst(y) and y.a[0] in (0, 1) for y in g.a[1:]):
            x = next((y.a[0] for y in g.a[1:] if isinstance(y, Term) and y.op == "size"), None)
            if g.a[0] == "==" and not any(isinstance(y, Term) and isconst(y) and y.a[0] == 0 for y in g.a[1:]):
                x = None
            if g.a[0] in ("<", "<=") and isinstance(g.a[1], Term) and g.a[1].op != "size":
                x = None
            if g.a[0] == "<=" and not (isconst(g.a[2]) and g.a[2].a[0] == 0):
                x = None
        return x is not None and x.op == "call" and x.a[0] == "Graph::shortestPathBetween"

    STRUCT = ("list", "elem", "rod", "R", "t", "mul", "inv", "pose", "v3", "ite", "call", "such", "cvop")

    def cases(self, v, limit=16):
        """(assumed conditions, value without conditionals) for every case of the conditionals of a value"""
        def first(t, d=0):
            if d > 14 or not isinstance(t, Term):
                return None
            if t.op == "ite":
                return t.a[0]
            if t.op not in self.STRUCT or t.op == "call" and not str(t.a[0]).endswith(("median", "getAverageRotation")):
                return None
            xs = t.a[2:] if t.op == "such" else t.a[:1] if t.op == "elem" else t.a
            for x in xs:
                if isinstance(x, Term):
                    r = first(x, d + 1)
                    if r is not None:
                        return r
            return None

        def pick(t, cond, val, memo):
            if isinstance(t, tuple):
                return tuple(pick(x, cond, val, memo) for x in t)
            if not isinstance(t, Term):
                return t
            r = memo.get(t)
            if r is None:
                if t.op == "ite" and t.a[0] is cond:
                    r = pick(t.a[1 if val else 2], cond, val, memo)
                elif t.op in ("collect", "fix", "sum", "fld", "this", "arg", "var", "const", "C"):
                    r = t
                else:
                    r = rebuild(t.op, tuple(pick(x, cond, val, memo) for x in t.a))
                memo[t] = r
            return r
        todo, out = [((), v)], []
        while todo:
            gs, x = todo.pop()
            if any(self.emptypath(g) for g in gs):
                continue       # vertices of one component: there is a path
            c = first(x)
            if c is None:
                out.append((gs, x))
                continue
            if len(todo) + len(out) > limit:
                return None
            todo.append((gs + (c,), pick(x, c, True, {})))
            todo.append((gs + (unop("!", c),), pick(x, c, False, {})))
        return out

    def fix(self, t, f, d):
        L, init, head, step = t.a
        # value that is replaced, never composed
        if not self.uses(step, head):
            a = None if init is EMPTY or init.op in ("undef", "mat0") else f(init, d + 1)
            b = f(self.strip(step, head), d + 1) if self.strip(step, head) is not None else None
            if init is EMPTY or init.op in ("undef", "mat0"):
                return b
            return self.join(a, b, "different poses are assigned") if a is not None and b is not None else None
        return self.chain(t, d) if f == self.ptype else None

    def strip(self, t, head):
        """the assigned alternative of ite(.., value, head)"""
        if t is head:
            return None
        if t.op == "ite":
            a, b = self.strip(t.a[1], head), self.strip(t.a[2], head)
            if a is None:
                return b
            if b is None:
                return a
            return mk("ite", t.a[0], a, b)
        return t

    def uses(self, t, head):
        if t is head:
            return False
        if t.op == "ite":
            return contains(t.a[0], head) and False or self.uses(t.a[1], head) or self.uses(t.a[2], head)
        return contains(t, head)

    def chain(self, t, d):
        """product along a path: induction over the position on the path"""
        L, init, head, step = t.a
        lp = self.it.loops_by_uid.get(L.a[0])
        if lp is None or lp.kind not in ("range", "each") or lp.has_break:
            return None
        t0 = self.ptype(init, d + 1)
        if t0 != ID:
            return None
        key = L.a[1]
        ps = {}
        for x in subterms(step):
            p = self.pairelem(x)
            if x.op == "such" and self.canon(x.a[1]).op == "mkpair":
                q = [self.pairelem(y) for y in subterms(x.a[2])]
                q = {z[0] for z in q if z and z[1] is x.a[0]}
                p = (next(iter(q)), x.a[1]) if len(q) == 1 else None
            if p and self.pairs.get(p[0]):
                k = self.canon(p[1])
                if k.op != "mkpair":
                    return None
                ps[k] = p[0]
        if len(ps) != 1:
            return None
        k, field = next(iter(ps.items()))
        path, idx = None, []
        if sum(y.op == "elem" and y.a[0].op == "call" and y.a[0].a[0] == "Graph::shortestPathBetween" for y in k.a) == 1 and \
                any(self.known(y) and not any(z is key for z in subterms(y)) for y in k.a):
            raise Mismatch("a step of the chain joins a position of the path to the fixed id of %s" % field)
        for y in k.a:
            if y.op != "elem":
                return None
            if path is None:
                path = y.a[0]
            elif path is not y.a[0]:
                raise Mismatch("a step of the chain mixes two paths")
            idx.append(self.affine(y.a[1], key))
        if None in idx or path.op != "call" or path.a[0] != "Graph::shortestPathBetween":
            return None
        g = self.loc(path.a[1])
        if g.op == "fld" and GRAPHKIND.get(g.a[1]) not in (None, PAIRKIND[field]):
            raise Mismatch("the path of %s indexes the poses of %s" % (g.a[1], field))
        kind = PAIRKIND[field]
        lo, hi = sorted(idx)
        if hi - lo != 1:
            raise Mismatch("a step of the chain joins positions %d and %d of the path" % (idx[0], idx[1]))
        # range of the loop
        size = mk("size", path)
        if lp.kind == "each":
            start, bound = C(0), size
        else:
            start, bound = self.canon(lp.start), self.canon(lp.bound) if lp.bound is not None else None
            bound = self.bound(lp.cond, key) or bound
        if getattr(lp, "step", 1) not in (1,):
            return None
        s = self.affine(start, None)
        e = self.affine2(bound, size)
        if s is None or e is None:
            return None
        fr = lambda i: self.kindframe(kind, mk("elem", path, i))
        pos = dict(zip(idx, (y.a[1] for y in k.a)))
        here, nxt = fr(pos[lo]), fr(pos[hi])
        first = self.kindframe(kind, path.a[2])
        last = self.kindframe(kind, path.a[3])
        ok = None
        for form in (0, 1):
            old = dict(self.env)
            n = len(self.eqs)
            self.env[head] = (here, first) if form == 0 else (first, here)
            try:
                r = self.ptype(step, d + 1)
            except Mismatch as m:
                ok = ok or m
                continue
            finally:
                self.env = old
            if r is None:
                return None
            want = (nxt, first) if form == 0 else (first, nxt)
            if self.same(r[0], want[0]) and self.same(r[1], want[1]):
                if s + lo != 0:
                    raise Mismatch("the chain starts at position %d of the path, not at its beginning" % (s + lo))
                if e + lo != -1:
                    raise Mismatch("the chain stops %d positions before the end of the path" % (-1 - (e + lo)) if e + lo < -1 else
                                   "the chain runs past the end of the path")
                return (last, first) if form == 0 else (first, last)
            ok = ok or Mismatch("a step of the chain gives %s" % self.sh(r))
        if isinstance(ok, Mismatch):
            raise Mismatch("the product along the path does not chain: " + str(ok))
        return None

    def affine(self, t, key):
        """constant c of key + c (or of a constant)"""
        if t is key:
            return 0
        if isconst(t) and key is None and isinstance(t.a[0], int):
            return t.a[0]
        if t.op == "op" and t.a[0] in ("+", "-") and len(t.a) == 3:
            x, y = t.a[1], t.a[2]
            if isconst(x) and t.a[0] == "+":
                x, y = y, x
            if isconst(y) and x is key:
                return y.a[0] if t.a[0] == "+" else -y.a[0]
        return None

    def bound(self, cond, key):
        """upper bound (exclusive) of the key from the condition key + c < bound"""
        if not isinstance(cond, Term) or cond.op != "op" or len(cond.a) != 3:
            return None
        o, x, y = cond.a
        if o in (">", ">="):
            o, x, y = {">": "<", ">=": "<="}[o], y, x
        if o not in ("<", "<=", "!="):
            return None
        x, y = self.canon(x), self.canon(y)
        a = self.affine(x, key)
        if a is None:
            return None
        a = -a + (1 if o == "<=" else 0)
        if not a:
            return y
        f = self.affine2(y, next((z for z in subterms(y) if z.op == "size"), None))
        if f is None:
            return None
        n = next((z for z in subterms(y) if z.op == "size"), None)
        return binop("+", n, C(a + f)) if a + f else n

    def affine2(self, t, size):
        if t is None:
            return None
        if t is size:
            return 0
        return self.affine(t, size)

    # --------------------------------------------------------------- components
    def cell(self, c, d=0):
        """(thing, index) of which the scalar is a component"""
        if d > 6:
            return None
        if c.op == "elem":
            i = c.a[1]
            if isconst(i) and isinstance(i.a[0], int):
                return c.a[0], i.a[0]
            if i.op == "ij" and all(isconst(x) for x in i.a):
                a, b = (x.a[0] for x in i.a)
                return (c.a[0], max(a, b)) if 0 in (a, b) else None
            return None
        if c.op == "call" and str(c.a[0]).endswith("::median") and len(c.a) > 1:
            return self.cell(c.a[1], d + 1)
        if c.op == "collect":
            return self.cell(c.a[2], d + 1)
        return None

    def comps(self, cs, what, f, d):
        xs = [self.cell(c) for c in cs]
        if None in xs:
            if all(isconst(c) and c.a[0] == 0 for c in cs):
                return ID
            return None
        if len({id(x) for x, _ in xs}) != 1:
            return None
        x = xs[0][0]
        idx = tuple(i for _, i in xs)
        if self.slot(x) is not None:
            if idx == ((0, 1, 2) if what == "rotation" else (3, 4, 5)):
                return self.slot(x)
            raise Mismatch("the components %s of a stored pose are used as %s" % (idx, what))
        if idx == (0, 1, 2):
            return f(x, d + 1)
        if f(x, d + 1) is None:
            return None
        raise Mismatch("the components of the %s are taken in the order %s" % (what, idx))

    def rtype(self, x, d=0):
        if d > 25:
            return None
        s = self.slot(x)
        if s is not None:
            return s
        if x.op == "R":
            return self.ptype(x.a[0], d + 1)
        if x.op == "t":
            if self.ptype(x.a[0], d + 1) is not None:
                raise Mismatch("a translation is used as rotation")
            return None
        if x.op == "rod":
            return self.rtype(x.a[0], d + 1)
        if x.op in ("v3", "list") and len(x.a) == 3:
            return self.comps(x.a, "rotation", self.rtype, d)
        if x.op == "call" and str(x.a[0]).endswith("::getAverageRotation"):
            return self.comps(x.a[1:4], "rotation", self.rtype, d)
        if x.op == "ite":
            return self.alt(x, self.rtype, d)
        if x.op == "fix":
            return self.fix(x, self.rtype, d)
        if x.op == "lastof":
            return self.rtype(x.a[2], d + 1)
        if x.op == "out":
            return self.outtype(x, "rotation", d)
        if x.op == "lam" and x in self.env:
            return self.env[x]
        if x.op in ("zeros", "eye"):
            return ID
        if x.op == "arg":
            return ("A", x, "d"), ("A", x, "s")
        return None

    def ttype(self, x, d=0):
        if d > 25:
            return None
        if self.slot(x) is not None:
            return None
        if x.op == "t":
            return self.ptype(x.a[0], d + 1)
        if x.op in ("R", "rod") or x.op == "call" and str(x.a[0]).endswith("::getAverageRotation"):
            if self.rtype(x, d + 1) is not None:
                raise Mismatch("a rotation is used as translation")
            return None
        if x.op in ("v3", "list") and len(x.a) == 3:
            return self.comps(x.a, "translation", self.ttype, d)
        if x.op == "op" and x.a[0] == "/" or x.op == "cvop" and x.a[0] == "/":
            return self.ttype(x.a[1], d + 1)
        if x.op == "sum":
            a = self.ttype(x.a[1], d + 1)
            b = self.ttype(x.a[2], d + 1)
            return b if a == ID else None
        if x.op == "ite":
            return self.alt(x, self.ttype, d)
        if x.op == "fix":
            return self.fix(x, self.ttype, d)
        if x.op == "lastof":
            return self.ttype(x.a[2], d + 1)
        if x.op == "out":
            return self.outtype(x, "translation", d)
        if x.op == "lam" and x in self.env:
            return self.env[x]
        if x.op == "zeros":
            return ID
        if x.op == "arg":
            return ("A", x, "d"), ("A", x, "s")
        return None

    PNP = {"McCalib::ransacP3PDistortion": (0, 2, 4, 5), "McCalib::ransacP3P": (0, 2, 4, 5), "cv::solvePnP": (0, 2, 4, 5),
           "cv::solvePnPRansac": (0, 2, 4, 5)}

    def outtype(self, x, what, d):
        f, i = x.a[0], x.a[1]
        i = i.a[0] if isinstance(i, Term) else i
        args = x.a[2:]
        if f in self.PNP:
            po, ki, ri, ti = self.PNP[f]
            if i not in (ri, ti):
                return None
            if (i == ri) != (what == "rotation"):
                raise Mismatch("the %s of the estimated pose is used as %s" % ("rotation" if i == ri else "translation", what))
            cam = self.camof(args[ki])
            src = self.ptsframe(args[po])
            return (cam, src) if cam and src else None
        if f == "cv::calibrateHandEye":
            if i not in (4, 5):
                return None
            if (i == 4) != (what == "rotation"):
                raise Mismatch("the %s of the hand-eye calibration is used as %s" % ("rotation" if i == 4 else "translation", what))
            ts = []
            for j, f2 in ((0, self.rtype), (1, self.ttype), (2, self.rtype), (3, self.ttype)):
                ts.append(self.itemtype(args[j], f2, d + 1))
            if None in ts:
                return None
            a = self.join(ts[0], ts[1], "rotations and translations of different poses in the hand-eye calibration")
            b = self.join(ts[2], ts[3], "rotations and translations of different poses in the hand-eye calibration")
            if ID in (a, b):
                return None
            # base <- gripper and camera <- target give gripper <- camera
            return a[1], b[0]
        return None

    def itemtype(self, l, f, d):
        if l.op == "collect":
            return f(l.a[2], d + 1)
        if l.op == "agg" and len(l.a[1]) == 1:
            return f(l.a[1][0][1], d + 1)
        if l.op == "fix":
            return None
        return None

    def camof(self, k):
        """camera whose intrinsics a matrix holds"""
        cams = set()
        for x in subterms(k):
            if x.op == "fld" and x.a[1] in ("intrinsics_", "distortion_model_"):
                cams.add(self.canon(x.a[0]))
        if len(cams) != 1:
            return None
        b = next(iter(cams))
        if b.op == "elem" and b.a[0].op == "fld" and b.a[0].a[1] == "cams_" and b.a[0].a[0] is CAL:
            return ("C", b.a[1])
        if b.op == "this":
            return ("C", self.canon(mk("fld", b, "cam_idx_")))
        return None

    def ptsframe(self, l):
        """frame in which a list of 3D points is expressed"""
        it = l
        if l.op == "collect":
            it = l.a[2]
        src = {x for x in subterms(it) if x.op == "fld" and x.a[1] == "pts_3d_"}
        # the points themselves, not an index computed from other points
        if it.op == "elem":
            b = self.loc(it.a[0])
            src = {b} if b.op == "fld" and b.a[1] == "pts_3d_" else set()
        elif it.op == "fld" and it.a[1] == "pts_3d_":
            src = {it}
        if len(src) != 1:
            return None
        b = next(iter(src)).a[0]
        cb = self.canon(b)
        if cb.op == "elem" and cb.a[0].op == "fld" and cb.a[0].a[0] is CAL:
            if cb.a[0].a[1] == "boards_3d_":
                return ("B", cb.a[1])
            if cb.a[0].a[1] == "object_3d_":
                return ("B", self.canon(mk("fld", cb, "ref_board_id_")))
        t = self.ty(b)
        if t == NS + "Board":
            return self.board(mk("fld", b, "board_id_"))
        if t == NS + "Object3D":
            return self.obj(b)
        return None

    # --------------------------------------------------------------- six numbers
    def six(self, v):
        """type of an array of six pose parameters"""
        if v.op == "list" and len(v.a) == 1 and v.a[0].op == "zero":
            return ID
        if v.op == "list" and len(v.a) == 6:
            if all(isconst(x) and x.a[0] == 0 for x in v.a):
                return ID
            if all(isconst(x) for x in v.a):
                raise Mismatch("a pose is set to the constants %s, which are not those of the identity" % ", ".join(show(x) for x in v.a))
            xs = [self.cell(c) for c in v.a]
            if None not in xs and len({id(x) for x, _ in xs}) == 1 and self.slot(xs[0][0]) is not None:
                if [i for _, i in xs] != list(range(6)):
                    raise Mismatch("the parameters of a pose are stored in the order %s" % [i for _, i in xs])
                return self.slot(xs[0][0])
            r = self.comps(v.a[:3], "rotation", self.rtype, 0)
            t = self.comps(v.a[3:], "translation", self.ttype, 0)
            if r is None or t is None:
                return None
            return self.join(r, t, "rotation and translation are of different poses")
        return self.slot(v)
