"""C05: fixed intrinsics are never written; free intrinsics are refined twice."""
from sa.core import *
from sa.effects import Effects
from checks.C28 import T, workflows, compatible, stage

INTR = T("Camera.intrinsics_")
FIXED = (("fix_intrinsic_", True),)
FREE = (("fix_intrinsic_", False),)


def run(c):
    c.rule("fixed", "with fixed intrinsics nothing writes them, or offers them to the optimiser, once they have been used")
    c.rule("initial", "intrinsics read from the camera-parameter file are not replaced by an initial calibration")
    c.rule("free", "with free intrinsics they are refined per camera before the objects are built and jointly after the last merge")
    E = Effects(c.prog)
    for wf in workflows(c, E):
        tr = E.trace(wf)
        ini = first(tr, lambda e: e.tok == T("BoardObs.pose_") and e.rw == "W")
        if ini is None:
            raise Broken("no stage estimates board poses")
        bad = {}
        n = 0
        for k, e in enumerate(tr):
            if e.tok == INTR and e.rw == "W" and compatible(FIXED, e.cond):
                n += 1
                if k > ini:
                    bad.setdefault(stage(e), e)
        for s, e in bad.items():
            c.bad("fixed", "intrinsics changed in " + s, e.where,
                  "%s %s the intrinsics without testing that they are not fixed" %
                  (s, "lets the optimiser change" if e.how == "AddResidualBlock" else "writes"))
        if not bad:
            c.ok("fixed", tr[ini].where, "%d writes of the intrinsics under fix_intrinsic, all before the first pose estimation" % n)
        # free
        sol = [k for k, e in enumerate(tr) if e.tok == INTR and e.rw == "W" and e.how == "AddResidualBlock" and
               all(x in FREE for x in e.cond)]
        obj = first(tr, lambda e: e.tok == T("Calibration.board_pose_pairs_") and e.rw == "W")
        save = first(tr, lambda e: e.rw == "C" and e.tok[1].startswith("cv::FileStorage") and e.how == "write") or len(tr)
        merge = max([k for k, e in enumerate(tr) if e.tok == T("Calibration.cam_group_") and e.rw == "W"] or [0])
        solve = [k for k, e in enumerate(tr) if e.tok == ("call", "ceres::Solve")]
        early = [k for k in sol if obj is not None and k < obj and any(k < s < obj for s in solve)]
        late = [k for k in sol if merge < k < save and any(k < s < save for s in solve)]
        c.judge(bool(early), "free", "per-camera refinement", tr[early[0]].where if early else tr[ini].where,
                "intrinsics refined per camera", "the intrinsics are not refined per camera before the objects are built")
        c.judge(bool(late), "free", "joint refinement", tr[late[0]].where if late else tr[merge].where,
                "intrinsics refined jointly", "the intrinsics are not refined after the last merge")
    # loaded intrinsics
    for fn in c.roots():
        if fn.get("cls") != "McCalib::Calibration":
            continue
        t = E.trace(fn)
        if not any(e.rw == "C" and "FileStorage" in e.tok[1] for e in t) or not any(e.tok == INTR and e.rw == "W" for e in t) or \
                any(e.tok == T("BoardObs.pose_") and e.rw == "W" for e in t):
            continue
        it = c.it(fn)
        load = [e for e in it.events if e.kind == "write" and field_of(e.loc) == "intrinsics_" and from_file(e.val)]
        cal = [e for e in it.events if e.kind in ("call", "icall") and e.f in ("cv::calibrateCamera", "cv::fisheye::calibrate")]
        for a in load[:1]:
            for b in cal:
                excl = contradictory(a.guards(), b.guards())
                if not excl and b.seq < a.seq:
                    c.ok("initial", b, "calibrated values replaced by the file")
                else:
                    c.judge(excl, "initial", "%s in %s" % (b.f, fn["name"]), b, "initial calibration only without a file",
                            "the intrinsics read from the file are replaced by an initial calibration")
    c.need("fixed")
    c.need("free", 2)
    c.need("initial", 1)
    c.funcs |= {c.prog.fns[u]["name"] for u in E.memo}
    return "other", ("Effect trace of the calibration program with the conditions on fix_intrinsic; every write of Camera::intrinsics_, "
                     "including parameter blocks handed to the optimiser.")


def first(tr, p):
    for k, e in enumerate(tr):
        if p(e):
            return k
    return None


def field_of(l):
    while isinstance(l, Term) and l.op == "elem":
        l = l.a[0]
    return l.a[1] if isinstance(l, Term) and l.op == "fld" else None


def from_file(v):
    return any(x.op == "obj" and "FileStorage" in str(x.a[0]) or x.op == "out" and "operator>>" in str(x.a[0]) for x in subterms(v))
