"""C07: the result files hold every entity, under the keys the readers use."""
import ast
import os
from sa.core import *
from sa.views import *
from sa.poly import Norm
from checks import C23
from checks.C01 import tables
from checks.C27 import Mute

LW = dict(tag="lw", hooks={"localwrites": True})
FS = "cv::FileStorage"

CAM, KEY, OBJ, POSE, ERR = ("calibrated_cameras_data.yml", "detected_keypoints_data.yml", "calibrated_objects_data.yml",
                            "calibrated_objects_pose_data.yml", "reprojection_error_data.yml")
# what the documentation of the file formats promises: file -> {path of keys: quantity}
DOC = {
    CAM: {"nb_camera": "cameras", "camera_#/camera_matrix": "matrix", "camera_#/distortion_vector": "distortion",
          "camera_#/distortion_type": "cam.distortion_model_", "camera_#/camera_group": "group", "camera_#/img_width": "cam.im_cols_",
          "camera_#/img_height": "cam.im_rows_", "camera_#/camera_pose_matrix": "campose"},
    KEY: {"nb_camera": "cameras", "camera_#/img_width": "cam.im_cols_", "camera_#/img_height": "cam.im_rows_",
          "camera_#/frame_idxs": "obs.frame_id_", "camera_#/frame_paths": "obs.path", "camera_#/board_idxs": "obs.board_id_",
          "camera_#/pts_2d": "obs.pts_2d_", "camera_#/charuco_idxs": "obs.charuco_id_"},
    OBJ: {"object_#/points": "points"},
    POSE: {"object_#/poses": "poses"},
    ERR: {"nb_camera_group": "groups", "camera_group_#/frame_list": "list", "camera_group_#/frame_#/camera_list": "list",
          "camera_group_#/frame_#/camera_#/nb_pts": "nb_pts", "camera_group_#/frame_#/camera_#/error_list": "errors"},
}
# collections a record must be written for: all of the entries of (one of) these
OVER = {CAM: [("cam_group_", "cameras_"), ("cams_",)], KEY: [("cams_",)], OBJ: [("object_3d_",)], POSE: [("object_3d_",)]}
DEEP = {ERR: [("cam_group_",), ("cam_group_", "frames_"), ("cam_group_", "frames_", "object_observations_")]}


class Rec:
    def __init__(self, **k):
        self.__dict__.update(k)


def run(c):
    c.rule("keys", "every key the documentation names, and every key the readers in the toolbox and its Python tools ask for, is written")
    c.rule("form", "records are opened and closed at the same place, every key gets a value, and no key is written twice")
    c.rule("quantity", "the value written is the quantity the key names, of the entity whose number is in the key")
    c.rule("complete", "a record is written for every entry of the collection")
    c.rule("closed", "nothing is written to a file after it was closed")
    c.rule("lists", "a list written in a record starts empty for that record and holds what belongs to it")
    c.rule("reader", "what the toolbox reads under a key goes where that quantity belongs")
    files, its = {}, {}
    pairs = tables(Mute(c))[2]
    for fn in c.roots():
        if fn["name"].split("::")[-1] in ("main", "runCalibrationWorkflow"):
            continue
        it = c.it(fn, **LW)
        locs = []
        for e in it.events:
            if e.kind == "fsw" and e.loc not in locs:
                locs.append(e.loc)
        for l in locs:
            f = filename(it, l)
            recs = parse(c, fn, it, l, f)
            closed(c, fn, it, l)
            if f:
                files.setdefault(f, []).append((fn, it, l, recs))
            else:
                c.und("keys", fn, "name of the file not known")
    rd = readers(c)
    for f, doc in DOC.items():
        w = files.get(f, [])
        if not w:
            if any(c.prog.fns[u]["name"].startswith("McCalib") for u in c.prog.fns):
                c.bad("keys", "file:" + f, "McCalib::Calibration", "no function writes %s" % f)
            continue
        got = {}
        for fn, it, l, recs in w:
            for r in recs:
                got.setdefault(r.path, []).append(r)
            if any(r.path is None for r in recs):
                c.und("keys", fn, "%s: keys that could not be determined" % f)
        for k, why in [(k, "documented") for k in doc] + [(k, "read by " + x) for k, x in rd.get(f, ())]:
            fn = w[0][0]
            if k in got:
                c.ok("keys", got[k][0].e, "%s: %s, %s" % (f, k, why))
            elif None in got:
                c.und("keys", fn, "%s: %s" % (f, k))
            else:
                c.bad("keys", "%s:%s" % (f, k), fn, "%s has no %s, which is %s; it has %s" % (f, k, why, ", ".join(sorted(got))[:300]))
        for fn, it, l, recs in w:
            V = Views(c, fn, it, pairs)
            twice(c, recs, f)
            for r in recs:
                r.allrecs = recs
            for r in recs:
                if r.path in doc:
                    quantity(c, V, f, doc[r.path], r)
                if r.path:
                    complete(c, V, f, r)
            distinct(c, V, f, recs)
            if f == KEY:
                together(c, V, f, recs)
    loaders(c)
    for r, n in (("keys", 20), ("form", 10), ("quantity", 15), ("complete", 10), ("closed", 4), ("lists", 4), ("reader", 6)):
        c.need(r, n)
    return "other", ("The sequence of operands written to each file storage is evaluated symbolically and parsed into records (path of keys, numbers in the "
                     "keys, value, loops, conditions); compared with the documented formats and with the keys asked for by the readers (C++ and Python syntax trees).")


# ------------------------------------------------------------------ writing
def filename(it, loc):
    for e in it.events:
        if e.kind in ("lwrite", "write") and e.loc is loc:
            n = names(it, e.val)
            if n:
                return n
        if e.kind == "call" and e.f == FS + "::open" and e.d.get("o") is loc:
            n = names(it, mk("list", *[a for a in e.args if isinstance(a, Term)]))
            if n:
                return n
    return None


def names(it, t, d=0):
    for x in subterms(t):
        if isconst(x) and isinstance(x.a[0], str) and x.a[0].endswith((".yml", ".yaml", ".xml", ".json")):
            return x.a[0]
    if d < 3:
        for x in subterms(t):
            if x.op == "var":
                for e in it.events:
                    if e.kind == "lwrite" and e.loc is x and not contains(e.val, x):
                        n = names(it, e.val, d + 1)
                        if n:
                            return n
    return None


def pattern(t):
    """(text with # for numbers, number terms) of a string"""
    if isconst(t) and isinstance(t.a[0], str):
        return t.a[0], []
    if t.op == "cat" or t.op == "op" and t.a[0] == "+":
        s, ids = "", []
        for x in t.a:
            if not isinstance(x, Term):
                continue
            p = pattern(x)
            if p is None:
                return None
            s, ids = s + p[0], ids + p[1]
        return s, ids
    if t.op == "call" and t.a[0] == "std::to_string" and len(t.a) == 2:
        return "#", [t.a[1]]
    if t.op in ("ctor", "call") and len(t.a) == 2 and isinstance(t.a[1], Term) and "string" in str(t.a[0]):
        return pattern(t.a[1])
    return None


def parse(c, fn, it, loc, f):
    """records written to a file storage; structural faults are reported"""
    stack, pend, recs = [], None, []
    key = lambda s: "%s:%s" % (f or "?", s)
    n = 0
    path = lambda: None if any(s[0] is None for s in stack) else [s[0] for s in stack]
    for e in [e for e in it.events if e.kind == "fsw" and e.loc is loc]:
        v = e.val
        s = v.a[0] if isconst(v) and isinstance(v.a[0], str) else None
        seq = stack and stack[-1][2] == "["
        if pend is None and not seq:
            if s in ("{", "["):
                c.bad("form", key("nokey"), e, "a record is opened without a key")
                return recs
            if s in ("}", "]"):
                if not stack:
                    c.bad("form", key("close"), e, "more records are closed than were opened")
                    return recs
                p, ids, b, o, k = stack.pop()
                same_place(c, o, e, key("place:" + str(p)), "record %s is opened and closed at different places" % p)
                n += 1
                continue
            p = pattern(v)
            pend = (e, p)
            if s is None and p is None and not texty(e):
                # a number or a matrix where a key belongs
                c.bad("form", key("key:" + show(v)[:60]), e, "a value without a key: %s" % show(v)[:100])
                return recs
            continue
        ke, p = pend if pend else (e, ("", []))
        pend = None
        if s in ("{", "["):
            same_place(c, ke, e, key("open:" + str(p and p[0])), "the key %s and its record are written at different places" % (p and p[0]))
            stack.append((p[0] if p else None, p[1] if p else [], s, e, ke))
            continue
        if s in ("}", "]"):
            if seq:
                stack.pop()
                continue
            c.bad("form", key("novalue:" + str(p and p[0])), e, "the key %s gets no value" % (p and p[0]))
            return recs
        if p and isconst(v) and isinstance(v.a[0], str) and any(p and v.a[0] == q.split("/")[-1] for d in DOC.values() for q in d):
            c.bad("form", key("novalue:" + p[0]), e, "the key %s gets the text %s as value" % (p[0], v.a[0]))
        same_place(c, ke, e, key("value:" + str(p and p[0])), "the key %s and its value are written at different places" % (p and p[0]))
        pp = path()
        recs.append(Rec(path=None if pp is None or p is None else "/".join(pp + [p[0]]), ids=[i for q in stack for i in q[1]] + (p[1] if p else []),
                        val=v, e=e, ke=ke, vloc=e.d.get("vloc"), stack=list(stack), f=f, ty=e.d.get("ty", "")))
    if stack or pend:
        o = stack[-1][3] if stack else pend[0]
        c.bad("form", key("open"), o, "a record is not closed" if stack else "a key gets no value")
    else:
        c.ok("form", fn, "%s: %d values in %d records, all closed" % (f, len(recs), n))
    return recs


def texty(e):
    return "char" in e.ty or "string" in e.ty


def place(e):
    return [l.uid for l in e.loops()], {g for g in e.guards()}


def same_place(c, a, b, key, msg):
    (la, ga), (lb, gb) = place(a), place(b)
    if la != lb:
        c.bad("form", key, b, msg)
    elif ga != gb:
        d = [g for g in ga ^ gb]
        if any(not benign_guard(g) for g in d) or True:
            c.bad("form", key, b, msg + ": only if " + show(d[0])[:120])
    else:
        c.ok("form", b, "same loop, same conditions")


def twice(c, recs, f):
    seen = {}
    for r in recs:
        if r.path is None:
            continue
        k = (r.path, tuple(x[3] for x in r.stack))
        if k in seen and not contradictory(list(r.e.guards()), list(seen[k].e.guards())):
            c.bad("form", "%s:twice:%s" % (f, r.path), r.e, "%s is written twice into one record" % r.path)
        seen[k] = r


def closed(c, fn, it, loc):
    rel = [e for e in it.events if e.kind == "call" and e.f in (FS + "::release", FS + "::releaseAndGetString") and e.d.get("o") is loc]
    ws = [e for e in it.events if e.kind == "fsw" and e.loc is loc]
    k = fn["name"].split("::")[-1]
    for r in rel:
        inner = [l.uid for l in r.loops()]
        bad = [w for w in ws if w.seq > r.seq and not contradictory(list(w.guards()), list(r.guards()))]
        loop = [w for w in ws if inner and set(inner) & {l.uid for l in w.loops()}]
        opens = [e for e in it.events if (e.kind == "lwrite" and e.loc is loc or e.kind == "call" and e.f == FS + "::open" and e.d.get("o") is loc)
                 and set(inner) <= {l.uid for l in e.loops()} and inner]
        if bad:
            c.bad("closed", k + ":after", bad[0], "written after the file was closed at %s" % c.w(r)[0] if isinstance(c.w(r), tuple) else "written after the file was closed")
        elif loop and not opens:
            c.bad("closed", k + ":loop", r, "the file is closed in the loop that writes the records")
        else:
            c.ok("closed", r, "after the last record")
    if not rel:
        c.ok("closed", fn, "closed by the destructor")


# --------------------------------------------------------------- quantities
def judge(c, r, f, v, what, msg):
    k = "%s:%s" % (f, r.path)
    if v is None:
        c.und("quantity", r.e, "%s: %s" % (r.path, what))
    elif v:
        c.ok("quantity", r.e, "%s: %s" % (r.path, what))
    else:
        c.bad("quantity", k, r.e, "%s: %s" % (r.path, msg))


def uncast(t):
    while t.op in ("cast", "trunc") or t.op == "call" and len(t.a) == 2 and ("cast" in str(t.a[0]) or "operator basic_string" in str(t.a[0]) or str(t.a[0]).endswith("::string")):
        t = t.a[-1]
    return t


def owners(t, f):
    """objects whose field f occurs in the term"""
    return [x.a[0] for x in subterms(t) if x.op == "fld" and x.a[1] == f]


def quantity(c, V, f, q, r):
    F = V.F
    F.eqs[:] = []
    F.assume(r.e.guards())
    v = uncast(strip(r.val))
    if q == "cameras" or q == "groups":
        w = {"cameras": ("nb_camera_", "cams_"), "groups": ("cam_group_",)}[q]
        ok = v.op == "fld" and v.a[1] == w[0] and q == "cameras" or v.op == "size" and F.canon(v.a[0]).op == "fld" and F.canon(v.a[0]).a[1] == w[-1] and F.canon(v.a[0]).a[0] is CAL
        return judge(c, r, f, True if ok else (False if isconst(v) or v.op in ("fld", "size", "op") else None), "number of %s" % q, "the value is %s" % show(v)[:120])
    if not r.ids:
        return judge(c, r, f, None, "no number in the key", "")
    if q.startswith("cam."):
        return judge(c, r, f, *fieldof(V, v, q[4:], r.ids[-1], "cam_idx_"))
    if q in ("matrix", "distortion"):
        os_ = {V.camid(o)[1] for o in owners(v, "intrinsics_")}
        shape = [x for x in subterms(v) if x.op == "ctor" and "Mat" in str(x.a[0]) and len(x.a) > 2 and isconst(x.a[1]) and isconst(x.a[2])]
        rows = {(x.a[1].a[0], x.a[2].a[0]) for x in shape}
        if not os_:
            return judge(c, r, f, False if isconst(v) or v.op in ("empty", "zeros", "eye") else None, "intrinsics not found", "the value is %s" % show(v)[:100])
        for o in os_:
            s = sm(V, o, F.canon(r.ids[-1]))
            if s is not True:
                return judge(c, r, f, s, "", "the intrinsics are those of camera %s, the record is that of camera %s" % (show(o)[:80], show(r.ids[-1])[:80]))
        if rows:
            want = rows == {(3, 3)} if q == "matrix" else all(x[0] == 1 or x[1] == 1 for x in rows)
            return judge(c, r, f, want, "%s of the camera" % q, "the value is a matrix of %s" % sorted(rows))
        return judge(c, r, f, None, "shape not known", "")
    if q == "group":
        g = F.canon(v)
        for L in r.e.loops():
            if L.kind == "each" and fieldname(F, L) == "cam_group_":
                ok = sm(V, g, F.canon(L.key))
                if ok is not True and g.op == "fld" and g.a[1] == "cam_group_idx_":
                    ok = sm(V, F.canon(g), F.canon(mk("fld", mk("elem", F.canon(L.cont), L.key), "cam_group_idx_")))
                return judge(c, r, f, ok, "number of the group", "the value is %s" % show(v)[:120])
        return judge(c, r, f, None, "", "")
    if q == "campose":
        try:
            p = F.ptype(strip(r.val))
        except Mismatch as m:
            return judge(c, r, f, False, "", str(m)[:300])
        if p is None:
            return judge(c, r, f, None, "pose not understood", "")
        cid = ("C", F.canon(r.ids[-1]))
        want = p[1][0] == "C" and sm(V, p[1][1], cid[1])
        ref = p[0][0] == "C" and p[0][1].op == "fld" and p[0][1].a[1] == "id_ref_cam_"
        if want is True and ref:
            return judge(c, r, f, True, "from the camera to the reference camera", "")
        if p[1][0] in "CB" and p[0][0] in "CB" and (want is False or not ref):
            return judge(c, r, f, False, "", "the pose is %s; it should be that of the camera of the record in its group's reference camera" % F.sh(p)[:200])
        return judge(c, r, f, None, "pose from %s to %s" % (p[1], p[0]), "")
    if q == "points":
        return points(c, V, f, r)
    if q == "poses":
        return poses(c, V, f, r)
    if q == "list":
        return lists(c, V, f, r)
    if q in ("nb_pts", "errors"):
        return errors(c, V, f, q, r)
    if q.startswith("obs."):
        return listed(c, V, f, q[4:], r)


def fieldof(V, v, fld_, id_, idf):
    if v.op == "fld":
        if v.a[1] != fld_:
            return False, "", "the value is %s, not the %s of the camera" % (show(v)[:100], fld_)
        s = sm(V, V.camid(v.a[0])[1], V.F.canon(id_))
        return s, fld_, "the value is that of camera %s, the record is that of camera %s" % (show(V.camid(v.a[0])[1])[:80], show(id_)[:80])
    if isconst(v):
        return False, "", "the value is %s" % show(v)
    fs = {x.a[1] for x in subterms(v) if x.op == "fld"}
    if fs and fld_ not in fs:
        return False, "", "the value is %s, not the %s of the camera" % (show(v)[:100], fld_)
    return None, show(v)[:100], ""


def fieldname(F, L):
    if L.kind != "each":
        return None
    for x in (L.contval, L.cont):
        if isinstance(x, Term):
            b = strip(F.loc(x)) if x.op != "fld" else x
            if b.op == "fld":
                return b.a[1]
    return None


def matwrites(V, r):
    """(row, column, value, event) of what is written into the matrix before it is saved"""
    l = r.vloc
    if l is None:
        return None
    out = []
    for e in V.it.events:
        if e.kind == "write" and e.loc.op == "elem" and e.loc.a[0] is l and e.seq < r.e.seq:
            k = e.loc.a[1]
            if k.op != "ij" or not isconst(k.a[0]):
                return None
            out.append((k.a[0].a[0], k.a[1], uncast(e.val), e))
    return out


def start(V, l, upto):
    """last event that set the whole of a local before another event"""
    es = [e for e in V.it.events if (e.kind == "lwrite" or e.kind == "write" and l.op == "glob") and e.loc is l and e.seq < upto.seq and not contains(e.val, l)
          and not any(x.op == "lam" and x.a[1] is l for x in subterms(e.val))]
    return es[-1] if es else None


def scope(c, V, f, r, l, first):
    """a list or matrix of a record is started in that record"""
    s = start(V, l, first)
    k = "%s:%s" % (f, r.path)
    if s is None and l.op == "glob":
        c.bad("lists", k + ":start", first, "%s: the list still holds what was found for the records before" % r.path)
        return None
    if s is None:
        c.und("lists", r.e, "%s: where it starts" % r.path)
        return None
    want = {x.uid for q in r.stack[-1:] for x in q[3].loops()}
    have = {x.uid for x in s.loops()}
    if not want <= have:
        c.bad("lists", k + ":start", s, "%s: the list still holds what was found for the records before" % r.path)
        return None
    if have - want:
        lost = [x for x in V.it.loops_by_uid.values() if x.uid in have - want]
        c.bad("lists", k + ":start", s, "%s: the list is started again while the record is being filled" % r.path)
        return None
    c.ok("lists", s, "%s: starts in the record" % r.path)
    return s


def columns(c, V, f, r, rows, kind):
    ws = matwrites(V, r)
    if not ws:
        judge(c, r, f, None, "matrix not understood", "")
        return None
    s = scope(c, V, f, r, r.vloc, ws[0][3])
    if s is None:
        return None
    sh = s.val
    if sh.op in ("mat0", "zeros") and isconst(sh.a[0]) and sh.a[0].a[0] != rows:
        judge(c, r, f, False, "", "the matrix has %s rows, not %d" % (show(sh.a[0]), rows))
        return None
    cols = {w[1] for w in ws}
    loops = {tuple(l.uid for l in w[3].loops()) for w in ws}
    if len(cols) != 1:
        bad = all(C23.linear(strip(x)) for x in cols)
        judge(c, r, f, False if bad else None, "", "the rows of a %s are put into different columns: %s" % (kind, " / ".join(sorted(show(x)[:60] for x in cols))))
        return None
    if len(loops) != 1:
        judge(c, r, f, None, "written in different loops", "")
        return None
    got = {w[0] for w in ws}
    if got != set(range(rows)):
        judge(c, r, f, False, "", "rows %s are written, not 0 to %d" % (sorted(got), rows - 1))
        return None
    em = ws[0][3]
    depth = len(s.loops())
    ls = em.loops()
    if not ls:
        judge(c, r, f, None, "", "")
        return None
    width(c, f, r, s, kind)
    p, where, msg = C23.counted(V, em, cols.pop(), ls[-1], depth, lambda l: [], what=kind)
    k = "%s:%s:column" % (f, r.path)
    if p is None:
        c.und("lists", where, "%s: column of a %s" % (r.path, kind))
    elif p:
        c.ok("lists", where, "%s: column: %s" % (r.path, msg))
    else:
        c.bad("lists", k, where, "%s: %s" % (r.path, msg))
    visits(c, V, f, r, em, depth)
    return ws


def width(c, f, r, s, kind):
    """the number of columns is a number of the entity of the record"""
    sh = s.val
    if sh.op not in ("mat0", "zeros") or len(sh.a) < 2 or not isinstance(sh.a[1], Term):
        return
    k = "%s:%s:columns" % (f, r.path)
    t = strip(sh.a[1])
    lin = C23.linear(t)
    if lin is None:
        return
    atoms, const = lin
    keys = {l.key for l in s.loops()}
    if not atoms:
        return c.bad("lists", k, s, "%s: always %d columns" % (r.path, const))
    if len(atoms) != 1 or list(atoms.values()) != [1]:
        return
    a = next(iter(atoms))
    if a.op not in ("fld", "size"):
        return
    if keys and not keys & set(subterms(a)) and all(x.op in ("fld", "size", "this", "elem", "val", "firstval") or isconst(x) for x in subterms(a)):
        c.bad("lists", k, s, "%s: the number of columns is that of %s, whatever the record" % (r.path, show(a)[:100]))
    elif const:
        c.bad("lists", k, s, "%s: %s%+d columns" % (r.path, show(a)[:100], const))
    else:
        c.ok("lists", s, "%s: %s columns" % (r.path, show(a)[:80]))


def visits(c, V, f, r, em, depth):
    for L in em.loops()[depth:]:
        full(c, V, f, r, L, em)
    drops(c, V, f, r, em, r.stack[-1][3] if r.stack else r.e)


def points(c, V, f, r):
    F = V.F
    ws = columns(c, V, f, r, 5, "point")
    if not ws:
        return
    em = ws[0][3]
    oid = F.canon(r.ids[-1])
    ns, src = [], []
    for row, col, v, e in ws:
        if row < 3:
            if v.op != "fld" or v.a[1] not in "xyz":
                judge(c, r, f, None, "row %d: %s" % (row, show(v)[:100]), "")
                return
            if v.a[1] != "xyz"[row]:
                return judge(c, r, f, False, "", "row %d is %s of the point" % (row, v.a[1]))
            ns.append(v.a[0])
    if len(set(ns)) != 1:
        return judge(c, r, f, None, "coordinates of different points", "")
    p = ns[0]
    if p.op != "elem":
        return judge(c, r, f, None, show(p)[:100], "")
    l = F.loc(p.a[0])
    if l.op != "fld" or l.a[1] != "pts_3d_":
        return judge(c, r, f, None, show(p)[:100], "")
    o, n = l.a[0], p.a[1]
    if not C23.isobj(V, o):
        cls = F.ty2(o) if hasattr(F, "ty2") else None
        return judge(c, r, f, False if "boards" in show(o) else None, show(o)[:80], "the points are those of %s, not of the object" % show(o)[:80])
    s = sm(V, F.canon(mk("fld", o, "obj_id_")), oid)
    if s is not True:
        return judge(c, r, f, s, "", "the points are those of another object")
    b, i = [[w[2] for w in ws if w[0] == k][0] for k in (3, 4)]
    B, I = None, None
    if n.op == "elem":
        m = F.loc(n.a[0])
        pr = C23.pairof(n.a[1])
        if m.op == "fld" and m.a[1] == "pts_board_2_obj_" and pr:
            if m.a[0] is not o and sm(V, F.canon(mk("fld", m.a[0], "obj_id_")), oid) is False:
                return judge(c, r, f, False, "", "the index map is that of another object")
            B, I = pr
    if B is None and n.op in ("k", "i"):
        e0 = mk("elem", mk("fld", o, "pts_obj_2_board_"), n)
        B, I = mk("fld", e0, "first"), mk("fld", e0, "second")
    if B is None:
        return judge(c, r, f, None, "point %s" % show(n)[:80], "")
    for w, x, t in ((b, B, "board"), (i, I, "point of the board")):
        y = sm(V, uncast(w), uncast(x))
        if y is None and uncast(w) is ws[0][1] and len(em.loops()) > 2:
            y = False
        if y is not True:
            return judge(c, r, f, y, "", "the number of the %s written is %s, the coordinates are those of %s" % (t, show(w)[:80], show(x)[:80]))
    judge(c, r, f, True, "coordinates, board and number of every point", "")


def poses(c, V, f, r):
    F = V.F
    ws = columns(c, V, f, r, 6, "pose")
    if not ws:
        return
    src = set()
    for row, col, v, e in ws:
        if v.op != "elem" or not isconst(v.a[1]):
            return judge(c, r, f, None, "row %d: %s" % (row, show(v)[:100]), "")
        if v.a[1].a[0] != row:
            return judge(c, r, f, False, "", "row %d is number %s of the pose" % (row, show(v.a[1])))
        src.add(v.a[0])
    if len(src) != 1:
        return judge(c, r, f, None, "parts of different poses", "")
    p = src.pop()
    if p.op != "fld" or p.a[1] not in ("group_pose_", "pose_"):
        return judge(c, r, f, None, show(p)[:100], "")
    if p.a[1] != "group_pose_":
        return judge(c, r, f, False, "", "the poses are those with respect to the single camera, not to the reference camera")
    o = strip(p.a[0])
    b = o
    while b.op == "elem" and b.a[0].op == "fld" and b.a[0].a[1] != "object_observations_":
        b = b.a[0].a[0]
    if b.op == "elem" and b.a[0].op == "fld" and C23.isobj(V, b.a[0].a[0]):
        s = sm(V, F.canon(mk("fld", b.a[0].a[0], "obj_id_")), F.canon(r.ids[-1]))
        return judge(c, r, f, s, "poses of the object in the frames of its observations", "the poses are those of another object")
    F.assume(ws[0][3].guards())
    s = sm(V, F.canon(mk("fld", o, "object_3d_id_")), F.canon(r.ids[-1]))
    judge(c, r, f, s, "poses of the object", "the poses are those of another object")


def members(it, l, upto):
    return [e for e in it.events if e.kind == "push" and e.cont is l and e.seq < upto.seq]


def lists(c, V, f, r):
    """list of the numbers of the records written"""
    F = V.F
    if r.vloc is None:
        return judge(c, r, f, None, "", "")
    ps = members(V.it, r.vloc, r.e)
    k = "%s:%s" % (f, r.path)
    if not ps:
        return judge(c, r, f, None if any(e.kind == "write" and contains(e.loc, r.vloc) for e in V.it.events) else False, "", "the list is written without entries")
    if len(ps) > 1:
        return judge(c, r, f, None, "several places add to the list", "")
    p = ps[0]
    scope(c, V, f, r, r.vloc, p)
    # the record the entry stands for: opened in the same loops
    depth = len(r.stack)
    for o in opened(V, r):
        if len(o[0]) == depth + 1 and o[2]:
            (lo, go), (lp, gp) = place(o[3]), place(p)
            if lo != lp:
                c.bad("lists", k + ":loops", p, "%s: an entry is added for something else than a record" % r.path)
            elif go != gp:
                c.bad("lists", k + ":conditions", p, "%s: entries and records are written under different conditions: %s" % (r.path, show(list(go ^ gp)[0])[:100]))
            else:
                c.ok("lists", p, "%s: an entry for every record" % r.path)
            s = sm(V, uncast(p.val), uncast(o[2][-1]))
            return judge(c, r, f, s, "numbers of the records", "the list holds %s, the records are named by %s" % (show(p.val)[:80], show(o[2][-1])[:80]))
    judge(c, r, f, None, "", "")


def opened(V, r):
    """every record opened in the file: (path, -, ids, event)"""
    seen = []
    for q in r.allrecs:
        for d in range(len(q.stack)):
            st = q.stack[:d + 1]
            if st[-1][3] not in [x[3] for x in seen]:
                seen.append(([s[0] for s in st], None, st[-1][1], st[-1][3]))
    return seen


def errors(c, V, f, q, r):
    F = V.F
    obs = []
    for x in subterms(strip(r.val)):
        if x.op == "fld" and x.a[1] in ("pts_id_", "pts_2d_", "charuco_id_"):
            if x.a[0] not in obs:
                obs.append(x.a[0])
    if not obs:
        return judge(c, r, f, False if isconst(r.val) else None, "", "the value is %s" % show(r.val)[:100])
    obs = [strip(o) for o in obs]
    if len(set(obs)) != 1:
        return judge(c, r, f, None, "several observations", "")
    o = obs[0]
    ids = r.ids
    s = sm(V, F.canon(mk("fld", o, "camera_id_")), F.canon(ids[-1]))
    if s is not True:
        return judge(c, r, f, s, "", "the value is that of another camera's observation")
    g = o
    while g.op in ("elem", "fld") and not (g.op == "elem" and g.a[0].op == "fld" and g.a[0].a[1] == "object_observations_"):
        g = g.a[0]
    if g.op == "elem" and F.ty2(g.a[0].a[0]) in (GO, "CameraGroupObs"):
        s = sm(V, F.canon(mk("fld", g.a[0].a[0], "cam_group_idx_")), F.canon(ids[0]))
        if s is not True:
            return judge(c, r, f, s, "group of the observation", "observations of other groups are written into the record of a group")
    if q == "nb_pts":
        v = uncast(strip(r.val))
        return judge(c, r, f, True if v.op == "size" and v.a[0].op == "fld" and v.a[0].a[1] in ("pts_id_", "pts_2d_") else (False if v.op == "op" else None),
                     "number of points of the observation", "the value is %s" % show(v)[:100])
    dist = [x for x in subterms(strip(r.val)) if x.op == "call" and str(x.a[0]).endswith("computeDistanceBetweenPoints")] or contains_sqrt(r.val)
    judge(c, r, f, True if dist else None, "distances of the observation", "")


def contains_sqrt(t):
    return any(x.op in ("sqrt", "norm") or x.op == "call" and ("sqrt" in str(x.a[0]) or "norm" in str(x.a[0])) for x in subterms(t))


def listed(c, V, f, q, r):
    """a list with one entry per observation of the camera"""
    F = V.F
    if r.vloc is None:
        return judge(c, r, f, None, "", "")
    ps = members(V.it, r.vloc, r.e)
    if len(ps) != 1:
        return judge(c, r, f, None if ps else False, "", "the list is written without entries")
    p = ps[0]
    F.eqs[:] = []
    scope(c, V, f, r, r.vloc, p)
    F.eqs[:] = []
    F.assume(p.guards())
    v = uncast(strip(p.val))
    obs = observation(V, p)
    if obs is None:
        return judge(c, r, f, None, "observation not found", "")
    cam = sm(V, F.canon(mk("fld", obs, "camera_id_")), F.canon(r.ids[-1]))
    if cam is not True and not eqd(F, mk("fld", obs, "camera_id_"), r.ids[-1]):
        return judge(c, r, f, cam, "", "entries of all cameras are written into the record of a camera")
    def eq(a, b):
        if eqd(F, a, b):
            return True
        return None if not C23.plain(F.canon(a)) else False
    if q == "path":
        if v.op == "elem" and v.a[0].op == "fld" and v.a[0].a[1] == "frame_path_":
            fr = v.a[0].a[0]
            a = eqd(F, v.a[1], mk("fld", obs, "camera_id_"))
            b = eqd(F, mk("fld", fr, "frame_idx_"), mk("fld", obs, "frame_id_"))
            return judge(c, r, f, True if a and b else False, "path of the image of the camera in the frame", "the path is %s" % show(v)[:120])
        return judge(c, r, f, None, show(v)[:80], "")
    w = mk("fld", obs, q)
    if q in ("pts_2d_", "charuco_id_"):
        if v.op == "fld":
            return judge(c, r, f, v.a[1] == q and F.canon(v.a[0]) is F.canon(obs), "%s of the observation" % q, "the entry is %s" % show(v)[:100])
        return judge(c, r, f, None, show(v)[:80], "")
    judge(c, r, f, eq(v, w), "%s of the observation" % q, "the entry is %s, not the %s of the observation" % (show(v)[:80], q))


def sm(V, a, b):
    """equal under the equalities that hold here / definitely different / unknown"""
    if a is None or b is None:
        return None
    if a is b or eqd(V.F, a, b):
        return True
    if C23.numeric(a) and C23.numeric(b) and Norm()(a).eq(Norm()(b)):
        return True
    return False if C23.plain(V.F.canon(a)) and C23.plain(V.F.canon(b)) else None


def eqd(F, a, b):
    return a is b or F.canon(a) is F.canon(b) or F.equal(a, b) or F.equal(F.canon(a), F.canon(b)) or False


def observation(V, p):
    F = V.F
    for L in reversed(p.loops()):
        if fieldname(F, L) == "board_observations_":
            return mk("elem", L.cont, L.key) if isinstance(L.cont, Term) else None
    return None


def together(c, V, f, recs):
    ev = []
    for r in recs:
        if DOC[f].get(r.path or "", "").startswith("obs.") and r.vloc is not None:
            ps = members(V.it, r.vloc, r.e)
            if len(ps) == 1:
                ev.append((r, ps[0]))
    for r, p in ev[1:]:
        (a, ga), (b, gb) = place(ev[0][1]), place(p)
        k = "%s:%s:together" % (f, r.path)
        if a != b or ga != gb:
            c.bad("lists", k, p, "%s and %s do not get their entries together" % (ev[0][0].path, r.path))
        else:
            c.ok("lists", p, "%s: an entry whenever %s gets one" % (r.path, ev[0][0].path))
    if ev:
        p = ev[0][1]
        for L in p.loops()[len(ev[0][0].stack[-1][3].loops()):]:
            full(c, V, f, ev[0][0], L, p)
        drops(c, V, f, ev[0][0], p, ev[0][0].stack[-1][3])


# ------------------------------------------------------------------ complete
def complete(c, V, f, r):
    ls = r.e.loops()
    for L in ls:
        full(c, V, f, r, L, r.e)
    drops(c, V, f, r, r.e, None)
    if r.ids:
        fs = [fieldname(V.F, L) for L in ls]
        alt = OVER.get(f, [])
        if f in DEEP:
            alt = [DEEP[f][min(len(r.ids), 3) - 1]]
        for a in alt:
            chained(c, V, f, r, ls, fs, a)
        if any(all(x in fs for x in a) for a in alt):
            c.ok("complete", r.e, "%s: for every entry of %s" % (r.path, ", ".join(str(x) for x in fs)))
        elif None in fs or len(ls) > len(alt[0]):
            c.und("complete", r.e, "%s: loops over %s" % (r.path, fs))
        else:
            c.bad("complete", "%s:%s:over" % (f, r.path), r.e, "%s is written for every entry of %s only; expected: %s" % (r.path, fs or "nothing", " or ".join("/".join(a) for a in alt)))


def chained(c, V, f, r, ls, fs, a):
    """an inner collection is that of the entry of the outer one"""
    for x, y in zip(a, a[1:]):
        if x not in fs or y not in fs:
            continue
        A, B = ls[fs.index(x)], ls[fs.index(y)]
        if not isinstance(B.cont, Term):
            continue
        cont = set(subterms(strip(B.cont))) | set(subterms(strip(B.contval))) if isinstance(B.contval, Term) else set(subterms(strip(B.cont)))
        if A.key in cont or any(q.op in ("var", "lam", "call", "out", "fix", "collect") for q in cont):
            continue
        c.bad("complete", "%s:%s:of" % (f, r.path), r.e, "%s: the loop over %s does not visit those of every entry of %s" % (r.path, show(B.cont)[:100], x))


def distinct(c, V, f, recs):
    """records written in a loop are named by what changes in the loop"""
    seen = []
    for r in recs:
        outer = set()
        for p, ids, b, o, k in r.stack:
            ls = [L for L in o.loops() if L.uid not in outer]
            outer |= {L.uid for L in o.loops()}
            if o in seen or not ls:
                continue
            seen.append(o)
            key = "%s:%s:name" % (f, p)
            if p is None:
                c.und("form", o, "name of the record")
            elif not ids:
                c.bad("form", key, o, "every record in the loop is named %s" % p)
            else:
                deps = set()
                for i in ids:
                    deps |= {x for t in (i, V.F.canon(i)) for x in subterms(t)}
                miss = [L for L in ls if L.key not in deps]
                if len(miss) == len(ls) and not any(x.op in ("lam", "var", "out", "call") for x in deps):
                    c.bad("form", key, o, "every record %s in the loop has the same number, %s" % (p, show(ids[-1])[:80]))
                else:
                    c.ok("form", o, "%s: number of the entry" % p)


def full(c, V, f, r, L, e):
    k = "%s:%s:loop:%s" % (f, r.path, fieldname(V.F, L) or "range")
    x = loop_full(L)
    if x is None and L.has_break:
        br = breaks(c, V, L)
        if br:
            return c.bad("complete", k, e, "%s: the loop over %s ends before all entries were visited" % (r.path, fieldname(V.F, L) or "the entries"))
    if x is None and L.kind == "range":
        b = L.bound
        if isinstance(b, Term):
            t = C23.linear(strip(b))
            if t and isconst(L.start) and L.start.a[0] == 0 and L.step == 1 and not L.has_break:
                at, cst = t
                sz = [a for a in at if a.op == "size" or a.op == "fld" and a.a[1] in ("nb_pts_", "nb_camera_", "nb_board_")]
                if len(at) == 1 and sz and at[sz[0]] == 1:
                    x = True if cst == 0 else False
                elif not at:
                    x = False
    if x is False:
        c.bad("complete", k, e, "%s: the loop does not visit all entries" % r.path)
    elif x:
        c.ok("complete", e, "%s: every entry of %s" % (r.path, fieldname(V.F, L) or "the range"))
    else:
        c.und("complete", e, "%s: loop over %s" % (r.path, fieldname(V.F, L) or "?"))


def breaks(c, V, L):
    """the loop can be left before the end, other than after having found the one entry looked for"""
    return True


def drops(c, V, f, r, e, upto):
    base = set(upto.guards()) if upto is not None else set()
    for g in e.guards():
        if g in base or benign_guard(g):
            continue
        k = "%s:%s:filter" % (f, r.path)
        ids = identity(g)
        if ids is True:
            continue
        if ids is None:
            c.und("complete", e, "%s: only if %s" % (r.path, show(g)[:100]))
        else:
            c.bad("complete", k, e, "%s: only written if %s" % (r.path, show(g)[:160]))


IDS = ("cam_idx_", "camera_id_", "frame_id_", "frame_idx_", "board_id_", "object_3d_id_", "obj_id_", "cam_group_idx_")


def identity(g):
    """True: compares the numbers of entities; False: a condition on something else; None: unknown"""
    if g.op in ("&&", "||"):
        r = [identity(x) for x in g.a if isinstance(x, Term)]
        return True if all(x is True for x in r) else (False if False in r else None)
    if benign_guard(g):
        return True
    num = lambda x: x.op == "k" or x.op == "i" or x.op == "fld" and x.a[1] in IDS
    neg = False
    if g.op == "op" and g.a[0] == "!":
        g, neg = g.a[1], True
    if g.op == "op" and g.a[0] in ("==", "!=") and len(g.a) == 3:
        a, b = uncast(g.a[1]), uncast(g.a[2])
        if num(a) and num(b) and (g.a[0] == "==") != neg:
            return True
    if any(x.op in ("var", "lam", "call", "out", "fix", "collect", "sum") for x in subterms(g)):
        return None
    return False


# ------------------------------------------------------------------- readers
def readers(c):
    """file -> [(path of keys, reader)]"""
    out = {}
    root = c.prog.repo if hasattr(c.prog, "repo") else os.environ.get("SA_REPO", "/repo")
    d = os.path.join(root, "python_utils")
    for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if n.endswith(".py"):
            try:
                tree = ast.parse(open(os.path.join(d, n)).read())
            except SyntaxError:
                continue
            pyreads(tree, n, out)
    return out


HINT = {"compute_error_statistic.py": ERR}


def pyreads(tree, n, out):
    def text(x, env):
        if isinstance(x, ast.Constant):
            return x.value if isinstance(x.value, str) else "#"
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
            a, b = text(x.left, env), text(x.right, env)
            return None if a is None or b is None else a + b
        if isinstance(x, ast.JoinedStr):
            return "".join(v.value if isinstance(v, ast.Constant) else "#" for v in x.values)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "str":
            return "#"
        if isinstance(x, ast.Name):
            return env.get(x.id)
        return None

    def chain(x, env):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "getNode" and x.args:
            k = text(x.args[0], env)
            o = x.func.value
            if isinstance(o, ast.Name):
                return o.id, [k]
            p = chain(o, env)
            return p and (p[0], p[1] + [k])
        return None
    for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
        env, got = {}, []
        for x in ast.walk(fn):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                t = text(x.value, env)
                if t:
                    env.setdefault(x.targets[0].id, t)
        calls = [x for x in ast.walk(fn) if chain(x, env)]
        inner = {id(x.func.value) for x in calls}
        for x in calls:
            if id(x) in inner:
                continue
            v, p = chain(x, env)
            if None in p or v.endswith("gt"):
                continue
            got.append("/".join(p))
        for p in got:
            fits = [f for f, d in DOC.items() if p in d or any(k.startswith(p + "/") for k in d)]
            f = HINT.get(n)
            if p.startswith("camera_#") or p == "nb_camera":
                f = CAM
            if p.startswith("object_#"):
                f = POSE if p.endswith("poses") else OBJ
            if f:
                out.setdefault(f, [])
                if (p, n) not in out[f]:
                    out[f].append((p, n))


# where what is read under a key belongs
SINK = {"im_cols_": "img_width", "im_rows_": "img_height", "pts_2d_": "pts_2d", "charuco_id_": "charuco_idxs", "frame_id_": "frame_idxs",
        "board_id_": "board_idxs", "frame_path_": "frame_paths"}
PATHS = {"keypoints_path_": KEY, "cam_params_path_": CAM}
CLS = {"im_cols_": "cams_", "im_rows_": "cams_"}


def node(t):
    """(key terms, position in the list or matrix) of a value read from a file storage"""
    idx = None
    while True:
        t = C23.resolve(uncast(t))
        if t.op == "ctor" and len(t.a) > 1 and isinstance(t.a[1], Term) and "path" in str(t.a[0]):
            t = t.a[1]
        elif t.op == "elem" and idx is None and isinstance(t.a[0], Term):
            idx, t = t.a[1], t.a[0]
        else:
            break
    if t.op != "out" or "operator>>" not in str(t.a[0]):
        return None
    n = t.a[2] if len(t.a) > 2 and isinstance(t.a[2], Term) else None
    ks = []
    while n is not None and n.op == "elem":
        ks.append(n.a[1])
        n = n.a[0]
    return (ks[::-1], idx) if ks else None


def loaders(c):
    got, fns = set(), []
    for fn in c.roots():
        if fn["name"].split("::")[-1] in ("main", "runCalibrationWorkflow"):
            continue
        it = c.it(fn, **LW)
        reads = [e for e in it.events if e.kind == "write" and node(e.val)]
        if not reads:
            continue
        V = Views(c, fn, it)
        key = fn["name"].split("::")[-1]
        doc = opened_as(c, it, fn, key)
        owner = {}
        for e in it.events:
            if e.kind == "write" and e.loc.op == "fld" and e.loc.a[1] == "camera_id_":
                owner[e.loc.a[0]] = e.val
        first = {}
        for e in reads:
            ks, idx = node(e.val)
            l, cam = e.loc, None
            if l.op == "fld":
                f, o = l.a[1], l.a[0]
                if f in ("im_cols_", "im_rows_"):
                    cam = V.camid(o)[1]
                else:
                    cam = owner.get(o)
            elif l.op == "elem" and l.a[0].op == "fld":
                f, o = l.a[0].a[1], l.a[0].a[0]
                if f == "frame_path_":
                    cam = l.a[1]
                elif f == "intrinsics_":
                    cam = V.camid(o)[1]
            else:
                continue
            if f not in SINK and f != "intrinsics_":
                continue
            k = ks[-1].a[0] if isconst(ks[-1]) and isinstance(ks[-1].a[0], str) else None
            want = SINK.get(f)
            if f == "intrinsics_":
                want = ("camera_matrix" if l.a[1].a[0] < 4 else "distortion_vector") if isconst(l.a[1]) else None
            if k is None or want is None:
                c.und("reader", e, "%s: key not known" % f)
                continue
            kk = "%s:%s:%s" % (key, f, show(l.a[1])[:6] if f == "intrinsics_" else "")
            if k != want:
                c.bad("reader", kk, e, "%s is set to what is read under %s; the files hold it under %s" % (f, k, want))
                continue
            c.ok("reader", e, "%s -> %s" % (k, f))
            got.add(f)
            p = pattern(ks[0]) if len(ks) == 2 else None
            if p is None:
                c.und("reader", e, "%s: record not known" % k)
            elif p[0] != "camera_#":
                c.bad("reader", kk + ":record", e, "%s is read from record %s; the files hold it in camera_#" % (k, p[0]))
            elif cam is not None:
                V.F.eqs[:] = []
                s = sm(V, V.F.canon(cam), V.F.canon(p[1][0]))
                if s is None:
                    c.und("reader", e, "%s: camera" % k)
                else:
                    c.judge(s, "reader", kk + ":camera", e, "%s: of the camera" % k, "%s of camera %s is read from the record of camera %s" % (f, show(cam)[:60], show(p[1][0])[:60]))
            if doc:
                c.judge("camera_#/" + k in DOC[doc], "reader", kk + ":file", e, "%s is in %s" % (k, doc), "%s is read from a file that does not have it" % k)
            if idx is not None and f != "intrinsics_":
                first.setdefault("i", (f, idx))
                if idx is not first["i"][1]:
                    s = sm(V, idx, first["i"][1])
                    if s is None and any("operator>>" in str(x.a[0]) for x in subterms(idx) if x.op == "out"):
                        s = False
                    if s is False:
                        c.bad("reader", kk + ":position", e, "%s is entry %s of its list, %s is entry %s" % (f, show(idx)[:40], first["i"][0], show(first["i"][1])[:40]))
                else:
                    c.ok("reader", e, "%s: same entry" % k)
                for L in e.loops():
                    if L.has_break:
                        c.bad("reader", kk + ":all", e, "the loop over the detections in the file ends before all were read")
                    elif loop_full(L) is False:
                        c.bad("reader", kk + ":all", e, "the loop over the detections in the file leaves some out")
        fns.append((fn, it, doc))
    for f, k in list(SINK.items()) + [("intrinsics_", "camera_matrix")]:
        if f in got or not fns:
            continue
        for fn, it, doc in fns:
            if doc and "camera_#/" + k in DOC[doc]:
                mine = [e for e in it.events if e.kind == "write" and (e.loc.op == "fld" and e.loc.a[1] == f or e.loc.op == "elem" and e.loc.a[0].op == "fld" and e.loc.a[0].a[1] == f)]
                if mine:
                    c.und("reader", mine[0], "%s: value not known" % f)
                elif doc == KEY:
                    c.bad("reader", "%s:missing:%s" % (fn["name"].split("::")[-1], f), fn, "%s is not set to what the file holds under %s" % (f, k))


def opened_as(c, it, fn, key):
    """the kind of file a function reads"""
    kinds = set()
    for e in it.events:
        if e.kind == "call" and e.f == FS + "::open" or e.kind in ("lwrite", "write") and e.val.op == "ctor" and e.val.a[0] == FS:
            t = mk("list", *[a for a in e.args if isinstance(a, Term)]) if e.kind == "call" else e.val
            for x in subterms(t):
                if x.op == "fld" and x.a[1] in PATHS:
                    kinds.add(PATHS[x.a[1]])
    return kinds.pop() if len(kinds) == 1 else None
