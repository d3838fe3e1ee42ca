"""C11: derived state is recomputed or discarded before it is used again."""
from sa.core import *
from sa.effects import Effects
from checks.C28 import T, workflows, compatible, stage

SOLVED = "AddResidualBlock"
# derived field, field it follows, only changes made by the optimiser count
FOLLOWS = [
    ("Object3D.pts_3d_", "Object3D.relative_board_pose_", False),
    ("Object3DObs.group_pose_", "CameraGroupObs.object_pose_", True),
]
# state keyed by ids which a merge renumbers: discarded or rebuilt from empty before it is used
KEYED = {
    "Calibration.object_3d_": [
        "Calibration.object_pose_pairs_", "Calibration.inter_object_transform_", "Calibration.covis_objects_graph_",
        "Calibration.object_observations_", "Camera.object_observations_", "CameraObs.object_observations_",
        "Frame.object_observations_", "CameraGroup.object_observations_", "CameraGroupObs.object_observations_",
        "Camera.vis_object_idx_", "CameraObs.object_idx_", "Frame.objects_idx_", "CameraGroup.vis_object_idx_",
        "CameraGroupObs.object_idx_", "Calibration.no_overlap_object_pair_"],
    "Calibration.cam_group_": [
        "Calibration.cams_group_obs_", "Frame.cam_group_observations_", "Frame.cam_group_idx_",
        "Calibration.no_overlap_camgroup_pair_pose_", "Calibration.no_overlap__camgroup_pair_common_cnt_",
        "Calibration.no_overlap_camgroup_graph_", "Calibration.no_overlap_object_pair_"],
}


def run(c):
    c.rule("follows", "after a refinement changed a pose, what is computed from it is recomputed before anything reads it")
    c.rule("discarded", "state keyed by ids that a merge renumbered is emptied before it is used again")
    c.rule("all", "the recomputation visits every object and every observation")
    c.rule("same", "a derived pose is copied from the entry of the object it belongs to")
    E = Effects(c.prog)
    for wf in workflows(c, E):
        tr = E.trace(wf)
        follows(c, tr)
        discarded(c, tr)
    coverage(c, E)
    c.need("follows", 2)
    c.need("discarded", 5)
    c.need("all", 1)
    return "other", ("Effect trace of the calibration program compared with the derivation table; symbolic evaluation of the "
                     "refinement stages for the coverage of the recomputation loops.")


def follows(c, tr, table=FOLLOWS):
    for d, i, solver in table:
        td, ti = T(d), T(i)
        stale = []
        n = 0
        bad = False
        for k, e in enumerate(tr):
            if e.tok == ti and e.rw == "W" and (e.how == SOLVED or not solver):
                stale.append(e)
            elif e.tok == td and e.rw == "W":
                stale = [s for s in stale if not all(x in s.cond for x in e.cond)]
            elif e.tok == td and e.rw == "R":
                n += 1
                # reading while storing new values is not a use
                st = [s for s in stale if compatible(s.cond, e.cond)]
                if st and not storing(tr, k, td):
                    bad = True
                    c.bad("follows", "%s after %s in %s" % (d, i, stage(e)), e.where,
                          "%s reads %s, but %s was changed in %s and %s was not recomputed" % (stage(e), d, i, st[0].where, d))
                    stale = []
        if not bad and n:
            c.ok("follows", tr[0].where, "%s recomputed before each of %d reads" % (d, n))


def storing(tr, k, td):
    for e in tr[k + 1:k + 4]:
        if e.tok == td and e.rw == "W" and e.fn is tr[k].fn and e.line <= tr[k].line + 3:
            return True
    return False


RESET = ("clear", "=", "swap", "clearGraph", "erase", "move", "assign")


def discarded(c, tr):
    for i, ds in KEYED.items():
        ti = T(i)
        for d in ds:
            td = T(d)
            filled = stale = None
            bad = False
            n = 0
            for k, e in enumerate(tr):
                if e.tok == ti and e.rw == "W":
                    if filled is not None:
                        stale = e
                elif e.tok == td and e.rw == "W":
                    if e.how.split("<")[0] in RESET or e.how.startswith("clear"):
                        if stale is not None and all(x in stale.cond for x in e.cond) or not e.cond:
                            stale = filled = None
                    else:
                        if stale is not None and compatible(stale.cond, e.cond) and not bad:
                            bad = use(c, d, i, e, stale, "adds to")
                        filled = e
                elif e.tok == td and e.rw == "R" and stale is not None:
                    n += 1
                    if compatible(stale.cond, e.cond) and e.fn["u"] != stale.fn["u"] and not bad:
                        bad = use(c, d, i, e, stale, "reads")
            if not bad:
                c.ok("discarded", tr[0].where, "%s never used across a change of %s" % (d, i))


def use(c, d, i, e, stale, verb):
    c.bad("discarded", "%s across %s in %s" % (d, i, stage(e)), e.where,
          "%s %s %s, whose keys are ids of %s before they were changed in %s" % (stage(e), verb, d, i, stale.where))
    return True


def coverage(c, E, table=FOLLOWS):
    called = c.called()
    for fn in c.roots():
        if fn.get("cls") != M_("Calibration"):
            continue
        t = E.trace(fn)
        for d, i, solver in table:
            if not any(e.tok == T(i) and e.rw == "W" and e.how == SOLVED for e in t):
                continue
            if fn["u"] in called and broad(fn, t):
                continue
            it = c.it(fn)
            solve = [e.seq for e in it.events if e.kind in ("call", "icall") and e.f == "ceres::Solve"]
            if not solve:
                continue
            f = T(d)[1]
            ws = [e for e in it.events if e.kind == "write" and e.seq > min(solve) and has_field(e.loc, f)]
            if not ws:
                continue
            probs = [(e, problem(e)) for e in ws]
            good = [e for e, p in probs if not p]
            und = [e for e, p in probs if p == "?"]
            if good:
                c.ok("all", good[0], "%s recomputed for all" % d)
                for e in good:
                    same(c, e, d, i)
                    if accumulates(e):
                        c.bad("same", d + " accumulates", e, "%s is added to its old value instead of replaced" % d)
            elif und:
                c.und("all", und[0], "loops not understood")
            else:
                c.bad("all", "%s in %s" % (d, fn["name"]), probs[0][0], "%s is not recomputed for every entry: %s" % (d, probs[0][1]))


def same(c, e, d, i):
    """source pose and destination are of the same entity"""
    f = T(i)[1]
    if d == "Object3DObs.group_pose_":
        obs = e.loc.a[0]
        src = {x for x in subterms(e.val) if x.op == "elem" and isinstance(x.a[0], Term) and x.a[0].op == "fld" and x.a[0].a[1] == f}
        if not src:
            return
        grp = None
        if obs.op == "elem" and obs.a[0].op == "fld":
            grp = obs.a[0].a[0]
        for s in src:
            ok = s.a[1] is fld(obs, "object_3d_id_")
            g = grp is None or s.a[0].a[0] is grp
            if ok and g:
                c.ok("same", e, "pose of the observation's own object in its own group observation")
            elif s.a[1].op == "fld" and s.a[1].a[0] is obs and s.a[1].a[1] != "object_3d_id_" or isconst(s.a[1]) or \
                    s.a[1].op in ("k", "firstkey", "lastkey") or not g:
                c.bad("same", d + " source", e, "the group pose of an observation is taken from %s" % show(s)[:200])
            else:
                c.und("same", e, show(s)[:200])


def accumulates(e):
    v = e.val
    return isinstance(v, Term) and v.op in ("op", "cvop") and v.a[0] in ("+", "-", "*", "/") and any(x is e.loc for x in v.a[1:])


def problem(e):
    for L in e.loops():
        x = cut(L, e)
        if x:
            return "the loop over %s ends early" % (show(L.cont) if L.cont is not None else show(L.bound))
        if x is None:
            return "?"
        r = loop_full(L)
        if r is False:
            return "the loop over %s leaves entries out" % (show(L.cont) if L.cont is not None else show(L.bound))
        if r is None:
            return "?"
    fs = filters(e)
    if fs:
        return "only under the condition " + show(fs[0])[:160]
    return None


def has_field(loc, f):
    while isinstance(loc, Term):
        if loc.op == "fld" and loc.a[1] == f:
            return True
        if loc.op in ("fld", "elem"):
            loc = loc.a[0]
        else:
            return False
    return False


def broad(fn, t):
    return len({e.tok for e in t if e.rw == "W" and e.tok[0] == M_("Calibration")}) > 3


def M_(x):
    return "McCalib::" + x
