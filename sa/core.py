"""Checks: obligations, violations, evidence."""
import json
import os
import sys
import time

from . import facts
from .facts import Broken, VERIF
from .engine import *
from .known import KNOWN
from .typer import Typer

AVG = ("McCalib::getAverageRotation", "McCalib::median", "McCalib::handeyeCalibration",
       "McCalib::handeyeBootstraptTranslationCalibration", "McCalib::ransacP3P", "McCalib::ransacP3PDistortion",
       "McCalib::projectPointsWithDistortion", "McCalib::convertRotationMatrixToQuaternion",
       "McCalib::convertQuaternionToRotationMatrix", "McCalib::saddleSubpixelRefinement")
GRAPH = ("Graph::getGraph", "Graph::addEdge", "Graph::addVertex", "Graph::clearGraph", "Graph::connectedComponents",
         "Graph::shortestPathBetween", "Graph::getPath")


class Check:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obls = []          # (rule, status, where, what)
        self.viol = {}          # key -> (rule, where, msg)
        self.rules = {}
        self.funcs = set()
        self.events = 0
        self.prog = facts.load()
        self._its = {}

    def ty(self, fn, t):
        if not hasattr(self, "_typer"):
            self._typer = Typer(self.prog)
        return self._typer.ty(fn, t)

    # ---------------------------------------------------------- obligations
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, where, what=""):
        self.obls.append((rule, "discharged", self.w(where), str(what)[:300]))

    def und(self, rule, where, what=""):
        self.obls.append((rule, "undecided", self.w(where), str(what)[:300]))

    def bad(self, rule, key, where, msg):
        """key: stable name of the violating construct (no line numbers)"""
        w = self.w(where)
        k = rule + ":" + key
        self.obls.append((rule, "violated", w, str(msg)[:300]))
        self.viol.setdefault(k, (rule, w, str(msg)[:1500]))

    def judge(self, cond, rule, key, where, what, msg=None):
        if cond is None:
            self.und(rule, where, what)
        elif cond:
            self.ok(rule, where, what)
        else:
            self.bad(rule, key, where, msg or what)
        return cond

    def need(self, rule, n=1):
        """the rule must have met something to decide"""
        c = sum(1 for o in self.obls if o[0] == rule)
        if c < n and not self.viol:
            # not an alarm: the code may state the same in a form the rule does not see; said aloud, and never counted
            # as discharged. A check that discharges nothing at all gives no answer (see finish).
            m = "met %d obligations, at least %d expected: the analysis does not see all of its subject" % (c, n)
            print("UNDECIDED: property=%s rule %s %s" % (self.pid, rule, m))
            self.und(rule, "-", m)

    def w(self, x):
        if isinstance(x, Event):
            return x.where(self.prog)
        if isinstance(x, dict) and "name" in x:
            return "%s:%s (%s)" % (self.prog.rel(x["file"]), x["l"], x["name"])
        return str(x)

    # ------------------------------------------------------------- analyses
    def fns(self):
        return [f for f in self.prog.fns.values() if not f.get("implicit")]

    def has(self, name):
        return any(not f.get("implicit") for f in self.prog.by_name.get(name, []))

    def roots(self):
        """entry points: the functions of the pinned tree, and new functions nobody calls"""
        called = self.called()
        r = []
        for f in self.fns():
            if f["name"] in KNOWN or f["u"] not in called:
                r.append(f)
        return sorted(r, key=lambda f: (f["file"], f["l"]))

    def called(self):
        if not hasattr(self, "_called"):
            s = {}
            for f in self.fns():
                for u in callees(f["body"]):
                    s.setdefault(u, set()).add(f["u"])
                for i in f.get("inits") or []:
                    for u in callees(i):
                        s.setdefault(u, set()).add(f["u"])
            self._called = s
        return self._called

    def it(self, fn, opaque=AVG + GRAPH, tag="", **kw):
        if isinstance(fn, str):
            fn = self.prog.fn(fn)
        k = (fn["u"], tuple(sorted(opaque)), tag)
        r = self._its.get(k)
        if r is None:
            op = set(opaque) - {fn["name"]}
            r = self._its[k] = Interp(self.prog, opaque=op, **kw).run(fn)
            self.funcs |= {self.prog.fns[u]["name"] for u in r.inlined if u in self.prog.fns}
            self.events += len(r.events)
        return r

    def its_calling(self, *names, **kw):
        """roots that call one of the functions, directly or through functions that are no roots"""
        called = self.called()
        rs = {f["u"] for f in self.roots()}
        want = set()
        todo = [f["u"] for f in self.fns() if f["name"] in names]
        seen = set()
        while todo:
            u = todo.pop()
            for v in called.get(u, ()):
                if v in rs:
                    want.add(v)
                elif v not in seen:
                    seen.add(v)
                    todo.append(v)
        for f in self.roots():
            if f["u"] in want:
                yield f, self.it(f, **kw)

    def its(self, **kw):
        for f in self.roots():
            yield f, self.it(f, **kw)

    def stages(self, **kw):
        """roots except the two that only string the stages together"""
        for f in self.roots():
            if f["name"].split("::")[-1] not in ("main", "runCalibrationWorkflow"):
                yield f, self.it(f, **kw)

    # --------------------------------------------------------------- output
    def finish(self, level, note, samples=None):
        known = load_known()
        ndis = sum(1 for o in self.obls if o[1] == "discharged")
        nund = sum(1 for o in self.obls if o[1] == "undecided")
        if not ndis and not self.viol:
            raise Broken("no obligation was discharged: the analysis does not see its subject")
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
            "wall_s": round(time.time() - self.t0, 2),
            "coverage": {
                "explanation": note,
                "rules": self.rules,
                "functions_analysed": sorted(self.funcs),
                "functions": len(self.funcs),
                "translation_units": sorted(self.prog.units),
                "events_examined": self.events,
                "obligations": len(self.obls), "discharged": ndis, "undecided": nund,
                "violated": len(self.obls) - ndis - nund,
                "per_rule": {r: {s: sum(1 for o in self.obls if o[0] == r and o[1] == s)
                                 for s in ("discharged", "undecided", "violated")}
                             for r in sorted({o[0] for o in self.obls})},
                "samples": [{"rule": o[0], "status": o[1], "where": o[2], "what": o[3]} for o in pick(self.obls)],
                "undecided_list": [{"rule": o[0], "where": o[2], "what": o[3]} for o in self.obls if o[1] == "undecided"][:60],
            },
        }
        evid = os.environ.get("SA_EVID") or os.path.join(VERIF, "evidence")
        os.makedirs(evid, exist_ok=True)
        rc = 0
        lines = []
        for k, (rule, w, msg) in sorted(self.viol.items()):
            if (self.pid, k) in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[(self.pid, k)]))
                continue
            rc = 1
            lines.append({"key": k, "rule": rule, "rule_text": self.rules.get(rule, ""), "where": w, "message": msg})
        ev["coverage"]["violations"] = lines
        with open(os.path.join(evid, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if rc:
            rp = os.path.join(evid, self.pid + ".violation.json")
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "violations": lines,
                           "reproduce": "python3 %s/check.py %s" % (VERIF, self.pid)}, f, indent=1)
            for l in lines:
                print("  %s\n    at %s\n    %s" % (l["key"][:200], l["where"], l["message"][:700]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        else:
            print("%s: %d obligations, %d discharged, %d undecided, %.1f s" %
                  (self.pid, len(self.obls), ndis, nund, time.time() - self.t0))
        return rc


def pick(obls, n=40):
    if len(obls) <= n:
        return obls
    st = len(obls) / n
    return [obls[int(i * st)] for i in range(n)]


def load_known():
    """lines: 'known: property=<id> key=<rule:key> :: text'"""
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith("known: property="):
                h, _, t = ln[len("known: property="):].partition(" :: ")
                pid, _, key = h.partition(" key=")
                r[(pid.strip(), key.strip())] = t.strip()
    return r


def callees(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            u = x.get("fu") or x.get("u")
            if u and x.get("k") in ("call", "mcall", "ctor", "fref", "mref", None):
                yield u
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def walk(n):
    """all nodes of an emitted tree"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            st.extend(reversed(list(x.values())))
        elif isinstance(x, list):
            st.extend(reversed(x))


# ------------------------------------------------------------------ coverage
def loop_full(L):
    """True: every entry is visited; False: definitely not; None: unknown"""
    if L.has_break:
        return None
    if L.kind == "each":
        return True
    if L.kind == "range":
        s, b = L.start, L.bound
        if s is None or b is None or not isinstance(s, Term) or not isinstance(b, Term):
            return None
        if L.step != 1:
            return False
        if isconst(s) and s.a[0] != 0:
            return False
        if b.op in ("op", "bin") and b.a[0] == "-" and isconst(b.a[-1]):
            return False
        return None
    return None


def cut(L, e):
    """True: the loop is left while entries remain that event e is meant for; None: perhaps; False: no early exit"""
    r = False
    if not L.exits:
        return r
    inside, seen = [], False
    for x in e.ctx:
        if x[0] == "l" and x[1] is L:
            seen = True
        elif seen and x[0] == "g":
            inside.append(x[1])
    for how, gs in L.exits:
        if not gs:
            return True
        r = None
        if L.kind not in ("each", "range") or all(g in inside for g in gs):
            continue
        dep = [g for g in gs if L.key is not None and contains(g, L.key)]
        if dep and not (how == "return" and all(benign_guard(g) for g in dep)):
            return True
    return r


def elementwise(it, v):
    """(item, index, guard, loop) of a list filled element by element in one loop; index: the loop's key or counter"""
    if v.op == "collect":
        L, init, item, g = v.a
        if init is not EMPTY and init.op not in ("vec", "list") or init.op == "list" and init.a:
            return None
        return item, L.a[1], g, it.loops_by_uid.get(L.a[0])
    if v.op == "agg" and v.a[0].op in ("vec", "filled", "empty", "mat0", "zeros") and len(v.a[1]) == 1:
        p, item = v.a[1][0]
        if len(p) == 1 and p[0][0] == "e":
            k = p[0][1]
            for l in it.loops_by_uid.values():
                if l.key is k:
                    return item, k, TRUE, l
            return item, k, TRUE, None
    return None


def benign_guard(g):
    """conditions that only leave out what is not there"""
    if g.op in ("nn",):
        return True
    if g.op in ("in", "isempty", "size"):
        return True
    if g.op == "&&" or g.op == "op" and g.a[0] == "&&":
        return all(benign_guard(x) for x in g.a if isinstance(x, Term))
    if g.op == "op" and g.a[0] == "!":
        x = g.a[1]
        return isinstance(x, Term) and (x.op in ("nn", "in", "isempty") or benign_guard(x))
    if g.op == "op" and g.a[0] in ("!=", ">", "<", ">=", "<="):
        a, b = g.a[1], g.a[2]
        if any(x.op == "null" for x in (a, b)):
            return True
        o = g.a[0]
        if isconst(a):
            a, b = b, a
            o = {">": "<", "<": ">", ">=": "<=", "<=": ">="}.get(o, o)
        if a.op == "size" and isconst(b):
            return (o, b.a[0]) in (("!=", 0), (">", 0), (">=", 1))
    return False


def filters(e):
    """guards of an event that leave entries out"""
    return [g for g in e.guards() if not benign_guard(g)]


def ev3(t, true):
    """three-valued value of a condition when the terms in `true` hold"""
    if t in true:
        return True
    if isconst(t):
        return bool(t.a[0])
    if t.op == "&&" or t.op == "op" and t.a[0] == "&&":
        v = [ev3(x, true) for x in t.a if isinstance(x, Term)]
        return False if False in v else True if all(x is True for x in v) else None
    if t.op == "||" or t.op == "op" and t.a[0] == "||":
        v = [ev3(x, true) for x in t.a if isinstance(x, Term)]
        return True if True in v else False if all(x is False for x in v) else None
    if t.op == "op" and t.a[0] == "!":
        v = ev3(t.a[1], true)
        return None if v is None else not v
    if unop("!", t) in true:
        return False
    return None


NEGREL = {">": "<=", "<=": ">", "<": ">=", ">=": "<", "==": "!=", "!=": "=="}


def refuses(g, k):
    """the condition compares the size of a list with a constant and fails for size k although it holds for larger sizes"""
    if g.op == "op" and g.a[0] == "!" and isinstance(g.a[1], Term):
        h = g.a[1]
        return h.op == "op" and h.a[0] in NEGREL and refuses(mk("op", NEGREL[h.a[0]], *h.a[1:]), k)
    if g.op != "op" or len(g.a) != 3 or g.a[0] not in NEGREL:
        return False
    o, a, b = g.a
    if isconst(a):
        o, a, b = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o), b, a
    if a.op != "size" or not isconst(b) or not isinstance(b.a[0], (int, float)):
        return False
    n = b.a[0]
    return {">": k <= n, ">=": k < n, "==": n > k, "!=": n == k, "<": False, "<=": False}[o]


def facts_of(gs):
    r = set()
    for g in gs:
        r.add(g)
        if g.op == "&&" or g.op == "op" and g.a[0] == "&&":
            r |= facts_of([x for x in g.a if isinstance(x, Term)])
    return r


def contradictory(ga, gb):
    a, b = facts_of(ga), facts_of(gb)
    return any(ev3(g, a) is False for g in b) or any(ev3(g, b) is False for g in a)
