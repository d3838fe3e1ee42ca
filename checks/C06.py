"""C06: every configuration key reaches, and only reaches, the parameter it documents."""
import os
import re

from sa.core import *

# documented key -> sinks (class, field) that receive its value
CAL, BRD, CAM = "McCalib::Calibration", "McCalib::Board", "McCalib::Camera"
SINKS = {
    "number_camera": [(CAL, "nb_camera_")],
    "number_board": [(CAL, "nb_board_")],
    "boards_index": [(CAL, "nb_board_")],
    "refine_corner": [(CAL, "refine_corner_")],
    "min_perc_pts": [(CAL, "min_perc_pts_")],
    "number_x_square": [(CAL, "number_x_square_per_board_"), (BRD, "nb_x_square_")],
    "number_y_square": [(CAL, "number_y_square_per_board_"), (BRD, "nb_y_square_")],
    "number_x_square_per_board": [(CAL, "number_x_square_per_board_"), (BRD, "nb_x_square_")],
    "number_y_square_per_board": [(CAL, "number_y_square_per_board_"), (BRD, "nb_y_square_")],
    "square_size": [(BRD, "square_size_")],
    "square_size_per_board": [(CAL, "square_size_per_board_"), (BRD, "square_size_")],
    "length_square": [(BRD, "length_square_")],
    "length_marker": [(BRD, "length_marker_")],
    "resolution_x": [(BRD, "res_x_")],
    "resolution_y": [(BRD, "res_y_")],
    "resolution_x_per_board": [(CAL, "resolution_x_per_board_")],
    "resolution_y_per_board": [(CAL, "resolution_y_per_board_")],
    "root_path": [(CAL, "root_path_")],
    "cam_prefix": [(CAL, "cam_prefix_")],
    "quaternion_averaging": [(CAL, "quaternion_averaging_")],
    "ransac_threshold": [(CAL, "ransac_thresh_")],
    "number_iterations": [(CAL, "nb_iterations_")],
    "distortion_model": [(CAM, "distortion_model_")],
    "distortion_per_camera": [(CAM, "distortion_model_")],
    "save_path": [(CAL, "save_path_")],
    "camera_params_file_name": [(CAL, "camera_params_file_name_")],
    "cam_params_path": [(CAL, "cam_params_path_")],
    "keypoints_path": [(CAL, "keypoints_path_")],
    "save_reprojection": [(CAL, "save_repro_")],
    "save_detection": [(CAL, "save_detect_")],
    "he_approach": [(CAL, "he_approach_")],
    "fix_intrinsic": [(CAL, "fix_intrinsic_")],
}
# further keys that may take part in (sizes, indices of) a sink
EXTRA = {
    (CAL, "number_x_square_per_board_"): {"boards_index", "number_board"},
    (CAL, "number_y_square_per_board_"): {"boards_index", "number_board"},
    (BRD, "nb_x_square_"): {"boards_index", "number_board"},
    (BRD, "nb_y_square_"): {"boards_index", "number_board"},
    (BRD, "square_size_"): {"boards_index", "number_board"},
    (BRD, "res_x_"): {"resolution_x_per_board", "boards_index", "number_board"},
    (BRD, "res_y_"): {"resolution_y_per_board", "boards_index", "number_board"},
    (BRD, "nb_pts_"): {"number_x_square", "number_y_square", "number_x_square_per_board",
                       "number_y_square_per_board", "boards_index", "number_board"},
    (BRD, "pts_3d_"): {"number_x_square", "number_y_square", "number_x_square_per_board", "square_size",
                       "square_size_per_board", "number_y_square_per_board", "boards_index", "number_board"},
    (CAM, "distortion_model_"): {"number_camera"},
    (CAM, "cam_idx_"): {"number_camera"},
    (BRD, "board_id_"): {"number_board", "boards_index"},
    (BRD, "charuco_board_"): set(SINKS),
}
# image generator: parameter of createCharucoBoardsImages -> keys
GEN = {
    "num_board": {"number_board"},
    "number_x_square_per_board": {"number_x_square", "number_x_square_per_board"},
    "number_y_square_per_board": {"number_y_square", "number_y_square_per_board"},
    "length_square": {"length_square"}, "length_marker": {"length_marker"},
    "resolution_x_per_board": {"resolution_x", "resolution_x_per_board"},
    "resolution_y_per_board": {"resolution_y", "resolution_y_per_board"},
}


def keyread(t):
    """fs["key"] of a FileStorage"""
    if t.op == "elem" and isinstance(t.a[1], Term) and t.a[1].op == "c" and isinstance(t.a[1].a[0], str):
        b = t.a[0]
        if b.op == "obj" and b.a[0] == "cv::FileStorage":
            return t.a[1].a[0]
        if b.op in ("var", "arg", "fld") and "fs" in str(b):
            return None
    return None


def keys(v, conds=False, memo=None):
    """keys whose value flows into v; conditions of selections are left out unless conds"""
    memo = {} if memo is None else memo
    if not isinstance(v, Term):
        if isinstance(v, tuple):
            r = set()
            for x in v:
                r |= keys(x, conds, memo)
            return r
        return set()
    if v in memo:
        return memo[v]
    memo[v] = set()
    k = keyread(v)
    if k is not None:
        r = {k}
    else:
        a = v.a
        if v.op == "ite" and not conds:
            a = a[1:]
        if v.op == "out" and v.a[0] == "cv::operator>>":
            # the previous value of the destination is a default, not data read from the key
            a = a[:3]
        r = set()
        for x in a:
            r |= keys(x, conds, memo)
    memo[v] = r
    return r


def leaves(v):
    if v.op == "ite":
        for x in v.a[1:]:
            yield from leaves(x)
    elif v.op == "lastof":
        yield from leaves(v.a[2])
    elif v.op == "fix":
        yield from leaves(v.a[3])
    else:
        yield v


def final_values(it, objs):
    """(class, field) -> [(event or None, value)] at the end of the entry function"""
    out = {}
    last = {}
    for e in it.events:
        if e.kind == "write" and e.d.get("loc") is not None:
            last[e.loc] = e
    for l, v in it.store.items():
        if l.op != "fld" or not isinstance(v, Term):
            continue
        cls = objs(l.a[0])
        if cls:
            out.setdefault((cls, l.a[1]), []).append((last.get(l), v))
    return out


def owner(cls_this):
    def f(b):
        if b.op == "this":
            return cls_this
        if b.op == "new" and str(b.a[0]) in (BRD, CAM):
            return str(b.a[0])
        return None
    return f


def ignored(v, ks):
    """a value given under a list-valued key but not used: (key, value used instead)"""
    for k in sorted(ks):
        if not (k.endswith("_per_board") or k.endswith("_per_camera")):
            continue
        m = {}
        for t in subterms(v):
            if t.op == "isempty" and t.a[0].op == "out" and keys(t.a[0]) == {k}:
                m[t] = FALSE
        if not any(k in keys(x) for x in leaves(v)):
            continue
        for x in leaves(subst(v, m)):
            if k not in keys(x) and keys(x):
                return k, x
    return None


def documented(repo):
    """keys of the configuration files and of the README example"""
    ks = set()
    for base, _, fs in os.walk(os.path.join(repo, "configs")):
        for f in fs:
            if f.endswith(".yml"):
                for ln in open(os.path.join(base, f), errors="replace"):
                    m = re.match(r"^([A-Za-z_]+) *:", ln)
                    if m:
                        ks.add(m.group(1))
    return ks


def run(c):
    c.rule("sink", "the final value of the documented parameter is, on every path, the value read under its documented key "
                   "(or under another key documented for that parameter)")
    c.rule("only", "no other field of Calibration, Board or Camera receives the value of a key")
    c.rule("read", "every key documented in configs/ is read, and every key read is documented")
    c.rule("use", "the stored parameter is what reaches the stage the key documents")
    c.rule("generator", "the board-image generator passes each key to the argument it documents")
    prog = c.prog
    read_keys = {}
    vals = {}
    for name, cls in ((CAL + "::Calibration", CAL), (BRD + "::Board", BRD)):
        it = c.it(name)
        fv = final_values(it, owner(cls))
        if cls == BRD:
            fv = {k: v for k, v in fv.items() if k[0] == BRD}
        else:
            fv = {k: v for k, v in fv.items() if k[0] != BRD}
        vals.update(fv)
        for e in it.events:
            for x in [e.d.get("val")] + list(e.d.get("args") or []):
                for t in subterms(x) if isinstance(x, Term) else ():
                    k = keyread(t)
                    if k:
                        read_keys.setdefault(k, e)
    doc = documented(prog.repo)
    ctor = prog.fn(CAL + "::Calibration")
    sinks = {}
    for k, l in SINKS.items():
        for s in l:
            sinks.setdefault(s, set()).add(k)
    for s, ks in sorted(sinks.items()):
        vs = vals.get(s)
        nm = "%s::%s" % (s[0].split("::")[-1], s[1])
        if not vs:
            rec = prog.records.get(s[0])
            if rec and not any(f["n"] == s[1] for f in rec["fields"]):
                c.und("sink", ctor, "field %s no longer exists" % nm)
                continue
            c.bad("sink", nm, ctor, "%s is never written from the configuration; it documents key(s) %s" % (nm, sorted(ks)))
            continue
        for ev, v in vs:
            got = keys(v)
            allowed = ks | EXTRA.get(s, set())
            w = ev or ctor
            missing = ks - got - (set() if s[1] != "nb_board_" else set())
            if missing:
                c.bad("sink", nm + ":" + ",".join(sorted(missing)), w,
                      "%s does not receive the value of documented key(s) %s (it is built from %s)" %
                      (nm, sorted(missing), sorted(got) or show(v)[:120]))
                continue
            if got - allowed:
                c.bad("sink", nm + "+" + ",".join(sorted(got - allowed)), w,
                      "%s is built from key(s) %s which do not document it" % (nm, sorted(got - allowed)))
                continue
            bare_leaf = [x for x in leaves(v) if not keys(x) and x.op not in ("undef",)]
            if bare_leaf and keys(v, True) <= allowed | got and len(list(leaves(v))) > 1:
                c.bad("sink", nm + ":ignored", w, "on some path %s keeps %s and ignores key(s) %s" %
                      (nm, show(bare_leaf[0])[:80], sorted(ks)))
                continue
            if bare_leaf:
                c.bad("sink", nm + ":ignored", w, "on some path %s is %s whatever the configuration says" %
                      (nm, show(bare_leaf[0])[:80]))
                continue
            ign = ignored(v, ks)
            if ign:
                c.bad("sink", nm + "~" + ign[0], w, "%s ignores the value given for key %s on some path (it keeps %s)" %
                      (nm, ign[0], show(ign[1])[:100]))
                continue
            cond = keys(v, True) - got - allowed
            if cond:
                c.bad("sink", nm + "?" + ",".join(sorted(cond)), w,
                      "whether %s takes its configured value depends on unrelated key(s) %s" % (nm, sorted(cond)))
                continue
            c.ok("sink", w, "%s <- %s" % (nm, sorted(got)))
    for s, vs in sorted(vals.items()):
        if s in sinks:
            continue
        nm = "%s::%s" % (s[0].split("::")[-1], s[1])
        for ev, v in vs:
            got = keys(v) - EXTRA.get(s, set())
            c.judge(not got, "only", nm + "<-" + ",".join(sorted(got)), ev or ctor, "%s independent of undocumented keys" % nm,
                    "%s receives the value of key(s) %s, which document another parameter" % (nm, sorted(got)))
    for k in sorted(doc):
        if k not in SINKS:
            c.und("read", ctor, "key %s of configs/ is unknown to the rule table" % k)
            continue
        c.judge(k in read_keys, "read", "unread:" + k, ctor, "key %s is read" % k,
                "documented key %s is never read" % k)
    for k, e in sorted(read_keys.items()):
        if k in doc or k in SINKS:
            c.ok("read", e, "read key %s is documented" % k)
        else:
            c.bad("read", "undocumented:" + k, e, "key %s is read but no configuration file or README documents it" % k)

    # the parameters reach the stages
    P = mk("this")
    want = {"nb_iterations_", "ransac_thresh_", "quaternion_averaging_"}
    n = {k: 0 for k in want}
    for fn, it in c.its():
        if fn.get("cls") != CAL or fn.get("ctor"):
            continue
        for e in it.events:
            if e.kind == "write" and e.loc.op == "fld" and e.loc.a[1] == "max_num_iterations":
                n["nb_iterations_"] += 1
                c.judge(e.val is fld(P, "nb_iterations_"), "use", "max_num_iterations in " + e.fn["name"], e,
                        "solver iterations are number_iterations",
                        "the solver runs %s iterations instead of the configured number_iterations" % show(e.val)[:80])
            elif e.kind in ("call", "icall") and e.f == "McCalib::ransacP3PDistortion":
                n["ransac_thresh_"] += 1
                c.judge(e.args[6] is fld(P, "ransac_thresh_"), "use", "ransac threshold in " + e.fn["name"], e,
                        "inlier threshold is ransac_threshold",
                        "the RANSAC inlier threshold is %s instead of the configured ransac_threshold" % show(e.args[6])[:80])
            elif e.kind in ("call", "icall") and e.f == "McCalib::getAverageRotation":
                n["quaternion_averaging_"] += 1
                a = e.args[3]
                ok = a.op == "fld" and a.a[1] == "quaternion_averaging_"
                c.judge(ok if ok or isconst(a) else None, "use", "averaging method in " + e.fn["name"], e,
                        "averaging method is quaternion_averaging",
                        "rotations are averaged with method %s whatever quaternion_averaging says" % show(a)[:80])
        last = {}
        for e in it.events:
            if e.kind == "write" and e.loc.op == "fld" and e.loc.a[1] == "quaternion_averaging_" and e.loc.a[0].op == "new":
                last[e.loc] = e
        for e in last.values():
            c.judge(e.val is fld(P, "quaternion_averaging_"), "use", "quaternion_averaging_ in " + e.fn["name"], e,
                    "the observation of a camera group inherits quaternion_averaging",
                    "quaternion_averaging_ of a camera group observation is %s" % show(e.val)[:80])
    # solver iterations are set wherever a solver runs
    for fn, it in c.its():
        if fn.get("cls") != CAL or fn.get("ctor"):
            continue
        for e in it.events:
            if e.kind in ("call", "icall") and e.f == "ceres::Solve":
                o = e.args[0]
                loc = e.d.get("locs")
                seen = [w for w in it.events if w.kind == "write" and w.loc.op == "fld" and w.loc.a[1] == "max_num_iterations"
                        and w.seq < e.seq]
                c.judge(bool(seen), "use", "Solve in " + e.fn["name"], e, "iteration limit set before Solve",
                        "the solver runs without the configured iteration limit")
    # outputs requested by save_* keys
    wf = [f for f in c.fns() if f["name"] == "runCalibrationWorkflow"] or [f for f in c.fns() if f["name"] == "main" and "calibrate" in f["file"]]
    for key, fld_, callee in (("save_detection", "save_detect_", "McCalib::Calibration::saveDetectionImagesAllCam"),
                              ("save_reprojection", "save_repro_", "McCalib::Calibration::saveReprojectionImagesAllCam")):
        if not c.has(callee):
            continue
        stages = [f["name"] for f in c.fns() if f.get("cls") == CAL]
        for f in wf[:1]:
            it = c.it(f, opaque=stages, tag="wf")
            calls = [e for e in it.events if e.kind in ("call", "icall") and e.f == callee]
            if not calls:
                c.bad("use", callee, f, "%s is never called, so %s has no effect" % (callee, key))
            for e in calls:
                gs = [g for g in e.guards()]
                ok = any(reads_field(g, fld_) or key in keys(g) for g in gs)
                other = [x for k, x in (("save_detection", "save_detect_"), ("save_reprojection", "save_repro_"))
                         if x != fld_ and any(reads_field(g, x) or k in keys(g) for g in gs)]
                c.judge(ok and not other, "use", callee + " gate", e, "%s runs when %s is set" % (callee, key),
                        "%s is controlled by %s instead of %s" % (callee.split("::")[-1], other or "nothing", key))
    # generator
    gen = [f for f in c.fns() if f["name"] == "main" and "create_charuco" in f["file"]]
    for f in gen:
        it = c.it(f, opaque=["McCalib::createCharucoBoardsImages"], tag="gen")
        for e in it.events:
            if e.kind in ("call", "icall") and e.f == "McCalib::createCharucoBoardsImages":
                callee = prog.fn("McCalib::createCharucoBoardsImages")
                for p, a in zip(callee["params"], e.args):
                    w = GEN.get(p["n"])
                    if w is None:
                        c.und("generator", e, "parameter %s unknown" % p["n"])
                        continue
                    got = keys(a)
                    allowed = w | {"number_board"}
                    c.judge(w <= got <= allowed, "generator", p["n"], e, "%s <- %s" % (p["n"], sorted(got)),
                            "argument %s is built from %s instead of %s" % (p["n"], sorted(got), sorted(w)))
    c.need("sink", 30)
    return "other", ("Symbolic evaluation of Calibration::Calibration, Board::Board and the generator's main over the type-resolved "
                     "syntax tree; every FileStorage read is tracked by key to the fields (after all later overwrites) and to the "
                     "stage arguments. Undecided obligations are listed and never reported.")


def reads_field(g, name):
    return any(t.op == "fld" and t.a[1] == name for t in subterms(g))
