"""C04: the reference camera and the reference board keep the identity."""
from sa.core import *
from sa.posetypes import *
from sa.residuals import *
from . import C01, C02

OPQ = tuple(AVG) + GRAPH
GAUGE = ("relative_camera_pose_", "relative_board_pose_")
FIX = ("SetParameterBlockConstant", "SetManifold", "SetParameterization", "SetParameterLowerBound", "SubsetManifold", "SubsetParameterization")


class Under:
    """a check that reports what it is told under another rule"""

    def __init__(self, c, rule, key=""):
        self.c, self.r, self.k = c, rule, key

    def __getattr__(self, n):
        return getattr(self.c, n)

    def ok(self, rule, w, msg):
        self.c.ok(self.r, w, msg)

    def und(self, rule, w, msg):
        self.c.und(self.r, w, msg)

    def bad(self, rule, key, w, msg):
        self.c.bad(self.r, self.k + key, w, msg)

    def judge(self, r, rule, key, w, what, msg):
        self.c.judge(r, self.r, self.k + key, w, what, msg)


def run(c):
    c.rule("held", "the pose of the reference camera or reference board is not used by the residuals, so that refinement cannot move it")
    c.rule("used", "the pose of every other camera and board is used")
    c.rule("start", "poses in a group or object are expressed relative to its reference camera or board when it is created")
    quiet = Under(c, "start")
    fixed = any(str(n).endswith(FIX) for n in c.called())
    seen, su = {}, set()
    for fn in c.roots():
        n = fn["name"].split("::")[-1]
        if n in ("main", "runCalibrationWorkflow"):
            continue
        it = c.it(fn, opaque=tuple(x for x in OPQ if x != fn["name"]))
        V = Views(c, fn, it)
        for s in V.sites():
            if s.kind != "residual":
                continue
            R = Residual(c, V, s)
            k = "%s in %s" % (s.cls, C02.where(s.e))
            if not [p for p in s.params if gauge(V.F, p)]:
                continue
            if R.why or not R.cases:
                C02.once(seen, (k, "why"), lambda: c.und("held", s.e, R.why or "cases of %s" % s.cls))
                continue
            for K in R.cases:
                held(c, V, s, K, k, seen, fixed)
    its, hand, pairs, done = C01.tables(Mute(c))
    for fn, it in its:
        F = Frames(c, fn, it, pairs, hand)
        for e in it.events:
            if e.kind not in ("write", "mapins") or "val" not in e.d or e.val is EMPTY or e.val.op in ("undef", "zero"):
                continue
            loc = e.loc if e.kind == "write" else mk("elem", e.cont, e.key)
            if gauge(F, loc) and root(loc).op != "var":
                C01.stored(quiet, F, fn, e, loc, F.slot(loc), su)
    c.need("held", 3)
    c.need("used", 3)
    c.need("start", 2)
    return "other", ("Cost functors composed with the places that add residual blocks: the cases in which the pose of a camera in its group or of a board "
                     "in its object enters the residual exclude the reference; poses stored when groups and objects are created are typed by frames.")


class Mute(Under):
    def __init__(self, c):
        self.c = c

    def ok(self, *a):
        pass
    und = bad = judge = rule = need = ok


def gauge(F, p):
    for x in (F.loc(p), p):
        l = F.loc(x.a[0]) if x.op == "elem" else None
        if l is not None and l.op == "fld" and l.a[1] in GAUGE and F.slot(x) is not None:
            return x
    return None


def held(c, V, s, K, k, seen, fixed):
    F = V.F
    lab = C02.label(K)
    if K.wrong or K.status is None:
        C02.once(seen, (k, lab, "f"), lambda: c.und("held", s.e, "%s (%s): %s" % (s.cls, lab, K.wrong or K.msg)))
        return
    n = len(F.eqs)
    gs = list(s.e.guards()) + K.guards
    F.assume(gs)
    try:
        C02.chain(Under(c, "used"), V, s, K, k + " " + lab, lab, seen)
        for b in K.chain:
            g = gauge(F, b)
            if g is None:
                continue
            l = F.loc(g.a[0])
            own, kind = l.a[0], l.a[1]
            what = "camera" if kind == GAUGE[0] else "board"
            ref = F.canon(mk("fld", own, "id_ref_cam_" if what == "camera" else "ref_board_id_"))
            me = F.canon(g.a[1])
            key = "%s %s %s" % (k, lab, what)
            if excluded(F, gs, me, ref):
                C02.once(seen, ("h", key), lambda: c.ok("held", s.e, "%s (%s): the %s is not the reference" % (s.cls, lab, what)))
            elif fixed or not all(understood(F, x) for x in K.guards):
                C02.once(seen, ("h", key), lambda: c.und("held", s.e, "%s (%s)" % (s.cls, lab)))
            else:
                c.bad("held", key, s.e, "%s (%s): the pose of the reference %s is a free parameter of the residual" % (s.cls, lab, what))
    finally:
        del F.eqs[n:]


def excluded(F, gs, me, ref):
    for g in flat(gs):
        if g.op == "op" and g.a[0] in ("!=", "<", ">") and len(g.a) == 3:
            a, b = F.canon(g.a[1]), F.canon(g.a[2])
            if F.equal(a, me) and F.equal(b, ref) or F.equal(a, ref) and F.equal(b, me):
                return True
    return False


def flat(gs):
    for g in gs:
        if g.op == "&&" or g.op == "op" and g.a[0] in ("&&", "&"):
            yield from flat([x for x in g.a if isinstance(x, Term)])
        else:
            yield g


def understood(F, g):
    if g.op == "op" and g.a[0] in ("==", "!=", "<", ">", "<=", ">=", "!", "&&", "||"):
        return all(understood(F, x) for x in g.a[1:] if isinstance(x, Term))
    if g.op in ("&&", "||", "!"):
        return all(understood(F, x) for x in g.a if isinstance(x, Term))
    return isconst(g) or F.known(F.canon(g))
