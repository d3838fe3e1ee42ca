"""C28: every stage runs after the stages whose results it reads."""
from sa.core import *
from sa.effects import Effects

M = "McCalib::"


def T(s):
    a, b = s.split(".")
    return (M + a, b)


# fact -> facts it is computed from; a read of the fact after one of them changed needs a recomputation in between
DERIVED = {
    "BoardObs.pose_": ["Camera.intrinsics_"],
    "Calibration.board_pose_pairs_": ["BoardObs.pose_"],
    "Calibration.inter_board_transform_": ["Calibration.board_pose_pairs_"],
    "Calibration.covis_boards_graph_": ["Calibration.board_pose_pairs_"],
    "Calibration.object_observations_": ["Calibration.object_3d_"],
    "Object3DObs.pose_": ["Calibration.object_observations_", "Calibration.object_3d_"],
    "Calibration.camera_pose_pairs_": ["Object3DObs.pose_"],
    "Calibration.inter_camera_transform_": ["Calibration.camera_pose_pairs_"],
    "Calibration.covis_camera_graph_": ["Calibration.camera_pose_pairs_"],
    "Calibration.cams_group_obs_": ["Calibration.cam_group_", "Calibration.object_observations_"],
    "CameraGroupObs.object_pose_": ["Calibration.cams_group_obs_", "Calibration.object_observations_"],
    "Object3DObs.group_pose_": ["Calibration.cams_group_obs_", "Calibration.object_observations_"],
    "Calibration.object_pose_pairs_": ["CameraGroupObs.object_pose_"],
    "Calibration.inter_object_transform_": ["Calibration.object_pose_pairs_"],
    "Calibration.covis_objects_graph_": ["Calibration.object_pose_pairs_"],
    "Calibration.no_overlap_camgroup_pair_pose_": ["Calibration.cam_group_", "Calibration.no_overlap_object_pair_"],
    "Calibration.no_overlap_camgroup_graph_": ["Calibration.no_overlap_camgroup_pair_pose_"],
}
OPTIONAL = ["Calibration.no_overlap_camgroup_pair_pose_"]     # legitimately empty
CALIBRATED = ["Camera.intrinsics_"]     # refined in place: needed before, not required to stay
BASE = ["Calibration.board_observations_", "Camera.intrinsics_", "Calibration.object_3d_", "Calibration.cam_group_",
        "CameraGroup.relative_camera_pose_", "Object3D.relative_board_pose_", "Object3D.pts_3d_", "Calibration.no_overlap_object_pair_"]
RESULTS = ["Camera.intrinsics_", "CameraGroup.relative_camera_pose_", "CameraGroupObs.object_pose_", "Object3DObs.group_pose_",
           "Object3D.relative_board_pose_", "Object3D.pts_3d_", "Calibration.cam_group_", "Calibration.object_3d_",
           "Calibration.cams_group_obs_", "Calibration.object_observations_"]
REFINED = ["CameraGroup.relative_camera_pose_", "CameraGroupObs.object_pose_", "Object3D.relative_board_pose_"]


def compatible(a, b):
    d = dict(a)
    return all(d.get(k, v) == v for k, v in b)


def implied(a, b):
    """every condition of a holds under b"""
    return all(x in b for x in a)


def run(c):
    c.rule("defined", "a result is read only after the stage that computes it ran, under every setting of the calibration")
    c.rule("fresh", "after a stage changed what a result was computed from, the result is recomputed before it is read")
    c.rule("refined", "the camera, object and board poses are refined by the optimiser after their last structural change and before "
                      "the first result file is written")
    c.rule("saved", "nothing changes the calibrated state once results are being written")
    E = Effects(c.prog)
    n = 0
    for wf in workflows(c, E):
        n += 1
        order(c, E, E.trace(wf))
    for r in ("defined", "fresh", "refined", "saved"):
        c.need(r, 1)
    c.events = sum(len(t) for t in E.memo.values())
    c.funcs |= {c.prog.fns[u]["name"] for u in E.memo}
    return "other", ("Effect trace (reads and writes of every class field in evaluation order, callees expanded, loops once, both "
                     "branches) of the calibration program; the order of producers and consumers is compared with the dependency "
                     "table of the stages. Data inside a field (which entry) is not distinguished.")


def workflows(c, E):
    """outermost functions that both read the images or keypoints and write result files"""
    cand = []
    for f in c.fns():
        t = E.trace(f)
        ws = any(e.rw == "C" and e.tok[1].startswith("cv::FileStorage") and e.how == "write" for e in t)
        if ws and any(e.tok == ("call", "ceres::Solve") for e in t):
            cand.append(f)
    called = c.called()
    return [f for f in cand if not any(g in c.prog.fns and c.prog.fns[g] in cand for g in called.get(f["u"], ()))]


def order(c, E, tr):
    byt = {}
    for i, e in enumerate(tr):
        byt.setdefault(e.tok, []).append(i)
    W = {t: [i for i in l if tr[i].rw == "W"] for t, l in byt.items()}
    R = {t: [i for i in l if tr[i].rw == "R"] for t, l in byt.items()}

    def definite(t, r):
        best = -1
        half = {}
        for i in W.get(t, []):
            if i >= r:
                break
            extra = [x for x in tr[i].cond if x not in tr[r].cond]
            if not extra:
                best = i
            elif len(extra) == 1 and compatible(tr[i].cond, tr[r].cond):
                half[extra[0]] = i
                o = (extra[0][0], not extra[0][1])
                if o in half:
                    best = max(best, min(i, half[o]))
        return best

    def producing(t, r):
        """the read is part of the function that builds the container"""
        if t[0] != M + "Calibration":
            # the place at which the next entry goes
            return any(tr[k].tok == t and tr[k].rw == "W" and tr[k].fn["u"] == tr[r].fn["u"] and tr[k].path == tr[r].path and
                       tr[k].how.startswith(("push_back", "emplace_back")) and tr[k].line <= tr[r].line + 4 for k in range(r + 1, min(r + 9, len(tr))))
        for u in [tr[r].fn["name"]] + list(tr[r].path)[::-1]:
            if broad.setdefault(u, len({x.tok for x in fx(u) if x.rw == "W" and x.tok in facts}) > 3):
                return False
            if any(x.rw == "W" and x.tok == t for x in fx(u)):
                return True
        return False

    def fx(name):
        fs = [f for f in c.prog.by_name.get(name, []) if not f.get("implicit")]
        return [x for f in fs for x in E.trace(f)]

    facts = {T(f) for f in list(DERIVED) + BASE}
    broad = {}
    reads = {}
    for f in list(DERIVED) + BASE:
        t = T(f)
        reads[f] = [r for r in R.get(t, []) if not producing(t, r)]
        if f in OPTIONAL:
            continue
        for r in reads[f]:
            if definite(t, r) < 0:
                c.bad("defined", "%s read in %s" % (f, stage(tr[r])), tr[r].where,
                      "%s is read by %s before any stage has computed it%s" %
                      (f, stage(tr[r]), " under every setting" if any(i < r for i in W.get(t, [])) else ""))
                break
        else:
            if reads[f]:
                c.ok("defined", tr[reads[f][0]].where, "%s: %d reads, first write in %s" % (f, len(reads[f]), tr[W[t][0]].where))
    for f, ins in DERIVED.items():
        t = T(f)
        for i in ins:
            ti = T(i)
            bad = None
            for r in reads[f]:
                d = definite(t, r)
                if d < 0:
                    continue
                if definite(ti, d) < 0:
                    bad = "%s reads %s, which was computed before any stage had computed %s" % (stage(tr[r]), f, i)
                late = [] if i in CALIBRATED else [w for w in W.get(ti, []) if d < w < r and compatible(tr[w].cond, tr[r].cond)]
                if late and not same_stage(tr, late, r, t):
                    bad = "%s reads %s, which was last computed before %s changed in %s" % (stage(tr[r]), f, i, tr[late[-1]].where)
                if bad:
                    c.bad("fresh", "%s from %s in %s" % (f, i, stage(tr[r])), tr[r].where, bad)
                    break
            if not bad and reads[f]:
                c.ok("fresh", tr[reads[f][0]].where, "%s after %s at %d reads" % (f, i, len(reads[f])))
    # refinement and results
    files = [i for i, e in enumerate(tr) if e.rw == "C" and e.tok[1].startswith("cv::FileStorage") and e.how == "write"]
    solves = [i for i, e in enumerate(tr) if e.tok == ("call", "ceres::Solve")]
    if not files:
        return
    first = files[0]
    for f in REFINED:
        t = T(f)
        ws = [i for i in W.get(t, []) if i < first]
        struct = [i for i in ws if not tr[i].how.endswith("AddResidualBlock")]
        opt = [i for i in ws if tr[i].how.endswith("AddResidualBlock") and not tr[i].cond and any(s > i for s in solves if s < first)]
        last = max(struct) if struct else -1
        c.judge(any(o > last for o in opt), "refined", f, tr[first].where,
                "%s refined after its last structural change (%s)" % (f, tr[last].where if last >= 0 else "-"),
                "%s is written to the result files without a refinement after %s set it" % (f, tr[last].where if last >= 0 else "the start"))
    for f in RESULTS:
        t = T(f)
        late = [i for i in W.get(t, []) if i > first]
        if late:
            c.bad("saved", f + " after save", tr[late[0]].where, "%s changes %s after results have been written" % (stage(tr[late[0]]), f))
        else:
            c.ok("saved", tr[first].where, "%s unchanged after the first result file" % f)


def same_stage(tr, late, r, t):
    """the recomputation is in progress: the reader is in the function that changed the input"""
    return all(tr[w].fn["u"] == tr[r].fn["u"] or tr[r].path and tr[w].path and tr[w].fn["name"] in tr[r].path for w in late)


def stage(e):
    p = list(e.path) + [e.fn["name"]]
    p = [x.replace(M, "").replace("Calibration::", "") for x in p if x not in ("runCalibrationWorkflow", "main")]
    return p[0] if len(p) == 1 else p[-1]
