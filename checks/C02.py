"""C02: every refinement minimises the documented reprojection error."""
import re

from sa.core import *
from sa.residuals import *

OPQ = tuple(AVG) + GRAPH
SIZES = re.compile(r"AutoDiffCostFunction<\s*[\w:]+\s*,\s*([\d,\s]+)")


def run(c):
    c.rule("formula", "the residuals are the projection with the camera model (Brown or Kannala) of the moved point minus the detected point")
    c.rule("chain", "the poses a point goes through lead from its own frame to the camera whose intrinsics are used")
    c.rule("blocks", "the parameter blocks have the sizes and the kinds the residual reads")
    c.rule("solve", "what was put into a problem is solved for")
    seen = {}
    for fn in c.roots():
        n = fn["name"].split("::")[-1]
        if n in ("main", "runCalibrationWorkflow"):
            continue
        it = c.it(fn, opaque=tuple(x for x in OPQ if x != fn["name"]))
        V = Views(c, fn, it)
        sites = [s for s in V.sites() if s.kind == "residual"]
        for s in sites:
            R = Residual(c, V, s)
            k = "%s in %s" % (s.cls, where(s.e))
            if R.why or not R.cases:
                if R.op is not None and len(R.missing) == 2:
                    c.bad("formula", k, s.e, "%s computes no residual" % s.cls)
                elif ("why", k) not in seen:
                    seen["why", k] = 1
                    c.und("formula", s.e, R.why or "cases of %s" % s.cls)
                continue
            for K in R.cases:
                case(c, V, s, R, K, k, seen)
            blocks(c, V, s, R, k, seen)
        solve(c, it, sites, seen)
    c.need("formula", 12)
    c.need("chain", 12)
    c.need("blocks", 5)
    return "other", ("Cost functors and the places that add residual blocks, composed symbolically: each case of camera model and flags gives rational "
                     "functions compared exactly with the documented projection; parameter blocks are typed as poses between coordinate frames.")


def where(e):
    return e.fn["name"].split("McCalib::")[-1] if isinstance(e.fn, dict) else "?"


def label(K):
    return ("Brown", "Kannala")[K.model] + "".join(", %s%s" % ("" if v.a[0] is True else "no ", f.a[1]) for f, v in sorted(K.env.items(), key=lambda x: x[0].n) if isinstance(v.a[0], bool))


def case(c, V, s, R, K, k, seen):
    lab = label(K)
    if K.wrong:
        c.bad("formula", k + " " + lab, s.e, "%s (%s): %s" % (s.cls, lab, K.wrong))
        return
    if K.status is None:
        if (k, lab) not in seen:
            seen[k, lab] = 1
            c.und("formula", s.e, "%s (%s): %s" % (s.cls, lab, K.msg))
        return
    if (k, lab) not in seen:
        seen[k, lab] = 1
        c.ok("formula", s.e, "%s (%s)" % (s.cls, lab))
    F = V.F
    n = len(F.eqs)
    F.assume(list(s.e.guards()) + K.guards)
    try:
        chain(c, V, s, K, k + " " + lab, lab, seen)
    finally:
        del F.eqs[n:]


def chain(c, V, s, K, k, lab, seen):
    F = V.F
    f = F.ptsframe(K.p3)
    names = []
    for b in K.chain:
        t = F.slot(F.loc(b)) or F.slot(b)
        if t is None or f is None:
            f = None
            break
        r = F.same(t[1], f)
        if r is False:
            c.bad("chain", k, s.e, "%s (%s): the pose %s is applied to a point of %s" % (s.cls, lab, F.sh(t), F.sh((f, f)).split(" <- ")[0]))
            return
        if r is None:
            f = None
            break
        f = t[0]
    cam = V.camid(K.cam)
    if f is None:
        once(seen, ("ch", k, s.e.line), lambda: c.und("chain", s.e, "%s (%s)" % (s.cls, lab)))
        return
    r = F.same(f, cam)
    if r is False:
        c.bad("chain", k, s.e, "%s (%s): the point ends up in %s but is projected with the intrinsics of %s" % (
            s.cls, lab, F.sh((f, f)).split(" <- ")[0], F.sh((cam, cam)).split(" <- ")[0]))
        return
    once(seen, ("ch", k, s.e.line, r), lambda: c.judge(r, "chain", k, s.e, "%s (%s): %d pose(s)" % (s.cls, lab, len(K.chain)), ""))


def once(seen, k, f):
    if k not in seen:
        seen[k] = 1
        f()


def blocks(c, V, s, R, k, seen):
    if ("bl", k) in seen:
        return
    m = SIZES.search(str(s.cost.a[0]))
    sizes = [int(x) for x in m.group(1).replace(" ", "").strip(",").split(",")] if m else None
    if sizes is None:
        seen["bl", k] = 1
        c.und("blocks", s.e, "sizes of %s" % s.cost.a[0])
        return
    msg = None
    if len(sizes) - 1 != len(s.params):
        msg = "%d parameter blocks are declared, %d passed" % (len(sizes) - 1, len(s.params))
    if sizes[0] != 2:
        msg = "%d residuals are declared" % sizes[0]
    for i, b in enumerate(R.blocks):
        idx = {x.a[1].a[0] for r in R.r if r is not None for x in subterms(r) if x.op == "elem" and x.a[0] is b and isconst(x.a[1])}
        if idx and i + 1 < len(sizes) and max(idx) >= sizes[i + 1]:
            msg = "the residual reads entry %d of its parameter block %s declared with %d entries" % (max(idx), R.names[i], sizes[i + 1])
        if i < len(s.params) and i + 1 < len(sizes):
            p = V.F.loc(s.params[i])
            want = 6 if V.F.slot(p) is not None or V.F.slot(s.params[i]) is not None else 9 if p.op == "fld" and p.a[1] == "intrinsics_" else None
            if want is not None and sizes[i + 1] != want:
                msg = "parameter block %s has %d entries and is declared with %d" % (R.names[i], want, sizes[i + 1])
    seen["bl", k] = 1
    if msg:
        c.bad("blocks", k, s.e, "%s: %s" % (s.cls, msg))
    else:
        c.ok("blocks", s.e, "%s: sizes %s" % (s.cls, sizes))


def solve(c, it, sites, seen):
    """a problem with residuals is solved after the last was added"""
    if not sites:
        return
    for e in {id(s.e.fn): s.e for s in sites}.values():
        k = where(e)
        last = [x for x in it.events if x.kind in ("call", "icall") and x.d.get("f") == "ceres::Solve" and x.seq > e.seq]
        if last:
            once(seen, ("so", k), lambda: c.ok("solve", e, k))
        elif not any(x.kind in ("call", "icall") and str(x.d.get("f", "")).startswith("ceres::Sol") for x in it.events):
            once(seen, ("so", k), lambda: c.bad("solve", k, e, "residuals are collected in %s but no solver runs afterwards" % k))
