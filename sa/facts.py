"""Facts about the current source of /repo: every function body, type resolved.

Builds the extractor (tool/extract.cpp) when needed, asks CMake for the real
compile commands of the tree, parses every non-test translation unit with
clang and loads the emitted trees.  Nothing of /repo is executed.
"""
from . import desugar
import fcntl
import hashlib
import json
import os
import shlex
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LLVM = "/usr/lib/llvm-18"
DEV = os.environ.get("SA_TUCACHE")      # development only: reuse the facts of unchanged translation units of scratch copies


class Broken(Exception):
    """The analysis itself cannot give an answer (exit code 2)."""


def _sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_tool():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "extract-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        tmp = out + ".tmp%d" % os.getpid()
        p = _sh(["clang++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I" + LLVM + "/include",
                 "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
                 "-D__STDC_LIMIT_MACROS", src, "-o", tmp, "-L" + LLVM + "/lib",
                 "-Wl,-rpath," + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"])
        if p.returncode:
            raise Broken("extractor does not build:\n" + p.stdout[-2000:])
        os.rename(tmp, out)
    return out


def compile_db(repo):
    d = tempfile.mkdtemp(prefix="sa-cdb-")
    try:
        p = _sh(["cmake", "-S", repo, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
                 "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON",
                 "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"],
                env=dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++"))
        f = os.path.join(d, "compile_commands.json")
        if p.returncode or not os.path.exists(f):
            raise Broken("cmake configure failed:\n" + p.stdout[-2000:])
        db = json.load(open(f))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    units = []
    for e in db:
        src = os.path.realpath(os.path.join(e["directory"], e["file"]))
        rel = os.path.relpath(src, repo)
        if rel.startswith("tests" + os.sep):
            continue
        a = shlex.split(e["command"])[1:]
        flags = []
        i = 0
        while i < len(a):
            x = a[i]
            if x in ("-o", "-MF", "-MT", "-MQ"):
                i += 2
                continue
            if x == "-c" or os.path.realpath(os.path.join(e["directory"], x)) == src:
                i += 1
                continue
            if x.startswith("-W") or x.startswith("-O") or x in ("-MD", "-MMD"):
                i += 1
                continue
            flags.append(x)
            i += 1
        units.append((src, flags))
    if not units:
        raise Broken("no translation unit found in the CMake build")
    return units


def _tree_hash(repo):
    h = hashlib.sha256()
    for base, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build", "data", "docs", "build"))
        for f in sorted(files):
            if f.endswith((".cpp", ".hpp", ".h", ".txt", ".cmake", ".cc", ".cxx", ".hh", ".inl", ".ipp")):
                p = os.path.join(base, f)
                h.update(p.encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()[:24]


class Program:
    def __init__(self):
        self.fns = {}       # usr -> fn
        self.by_name = {}   # qualified name -> [fn]
        self.records = {}   # name -> record
        self.globals = {}
        self.units = []
        self.repo = REPO

    def fn(self, name, n=None):
        l = [f for f in self.by_name.get(name, []) if not f.get("implicit")]
        if n is not None:
            l = [f for f in l if len(f["params"]) == n]
        if not l:
            raise Broken("anchor function %s not found in the current source" % name)
        return l[0]

    def rel(self, f):
        return os.path.relpath(f, self.repo)


def load(repo=None):
    repo = os.path.realpath(repo or REPO)
    tool = build_tool()
    key = _tree_hash(repo) + "-" + os.path.basename(tool) + "-" + hashlib.sha256(repo.encode()).hexdigest()[:6]
    cdir = os.path.join(BUILD, "facts-" + key)
    if DEV:
        cdir = os.path.join(DEV, "facts-" + key)
    if not os.path.exists(os.path.join(cdir, "ok")):
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, "lock2") if not DEV else os.devnull, "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(os.path.join(cdir, "ok")):
                _extract(repo, tool, cdir)
    prog = Program()
    prog.repo = repo
    for f in sorted(os.listdir(cdir)):
        if not f.endswith(".jsonl"):
            continue
        tu = None
        for ln in open(os.path.join(cdir, f)):
            o = json.loads(ln)
            k = o["kind"]
            if k == "func":
                if o["name"] == "main":
                    o["u"] += "@" + o["file"]
                if o["u"] not in prog.fns:
                    o["tu"] = f
                    prog.fns[o["u"]] = o
                    prog.by_name.setdefault(o["name"], []).append(o)
            elif k == "record":
                prog.records.setdefault(o["name"], o)
            elif k == "global":
                prog.globals.setdefault(o["name"], o)
            elif k == "tu":
                tu = o
        if tu is None or tu["errors"]:
            raise Broken("translation unit %s did not parse" % f)
        prog.units.append(os.path.relpath(tu["file"], repo))
    desugar.program(prog)
    return prog


def _extract(repo, tool, cdir):
    # keep the cache small
    olds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("facts-")),
                  key=os.path.getmtime)
    for d in [] if DEV else olds[:-6]:
        shutil.rmtree(d, ignore_errors=True)
    units = compile_db(repo) if not DEV else _dev_db(repo)
    os.makedirs(os.path.dirname(cdir), exist_ok=True)
    tmp = cdir + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    res = _sh(["clang", "-print-resource-dir"]).stdout.strip()

    def one(u):
        src, flags = u
        out = os.path.join(tmp, os.path.relpath(src, repo).replace("/", "_") + ".jsonl")
        if DEV:
            hit = _dev_get(repo, src, flags, hdr, out, tool)
            if hit:
                return src, 0, ""
        p = _sh([tool, repo, src, out, "/", "--"] + flags + ["-w", "-resource-dir=" + res])
        if DEV and p.returncode == 0:
            _dev_put(repo, src, flags, hdr, out, tool)
        return src, p.returncode, p.stdout
    hdr = _headers(repo) if DEV else ""
    # biggest first
    units.sort(key=lambda u: -os.path.getsize(u[0]))
    with ThreadPoolExecutor(8) as ex:
        for src, rc, text in ex.map(one, units):
            if rc:
                shutil.rmtree(tmp, ignore_errors=True)
                raise Broken("clang cannot parse %s:\n%s" % (src, text[-1500:]))
    open(os.path.join(tmp, "ok"), "w").close()
    shutil.rmtree(cdir, ignore_errors=True)
    os.rename(tmp, cdir)


def _headers(repo):
    h = hashlib.sha256()
    for base, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build", "data", "docs", "build"))
        for f in sorted(files):
            if f.endswith((".hpp", ".h")):
                h.update(os.path.relpath(os.path.join(base, f), repo).encode() + open(os.path.join(base, f), "rb").read())
    return h.hexdigest()


def _dev_key(repo, src, flags, hdr, tool):
    h = hashlib.sha256((hdr + os.path.relpath(src, repo) + " ".join(flags).replace(repo, "@R@") + tool).encode())
    h.update(open(src, "rb").read())
    return os.path.join(DEV, h.hexdigest()[:24])


def _dev_get(repo, src, flags, hdr, out, tool):
    k = _dev_key(repo, src, flags, hdr, tool)
    if os.path.exists(k):
        open(out, "w").write(open(k).read().replace("@R@", repo))
        return True


def _dev_put(repo, src, flags, hdr, out, tool):
    os.makedirs(DEV, exist_ok=True)
    k = _dev_key(repo, src, flags, hdr, tool)
    t = open(out).read().replace(repo, "@R@")
    open(k + ".tmp%d" % os.getpid(), "w").write(t)
    os.rename(k + ".tmp%d" % os.getpid(), k)


def _dev_db(repo):
    h = hashlib.sha256()
    for base, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build", "data", "docs", "build"))
        for f in sorted(files):
            if f.endswith((".txt", ".cmake", ".cpp", ".hpp", ".h")):
                h.update(os.path.relpath(os.path.join(base, f), repo).encode())
                if not f.endswith((".cpp", ".hpp", ".h")):
                    h.update(open(os.path.join(base, f), "rb").read())
    k = os.path.join(DEV, "db" + h.hexdigest()[:20])
    if not os.path.exists(k):
        os.makedirs(DEV, exist_ok=True)
        open(k, "w").write(json.dumps(compile_db(repo)).replace(repo, "@R@"))
    return [tuple(x) for x in json.loads(open(k).read().replace("@R@", repo))]


if __name__ == "__main__":
    t = time.time()
    p = load()
    print(len(p.fns), "functions", len(p.records), "records", len(p.units), "units", round(time.time() - t, 1), "s")
