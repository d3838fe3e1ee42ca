"""Development aid: applies textual changes to scratch copies of /repo's sources and runs checks on them.
usage: mut.py LISTFILE   (python file defining L = [(checks, file, old, new[, n]), ...]); '=' before checks: expect quiet"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(m):
    checks, f, old, new = m[:4]
    n = m[4] if len(m) > 4 else 0
    quiet = checks.startswith("=")
    d = tempfile.mkdtemp(prefix="mut")
    try:
        for s in ('McCalib', 'apps', 'configs', 'tests', 'CMakeLists.txt', 'python_utils', 'README.md'):
            p = os.path.join('/repo', s)
            if os.path.isdir(p):
                shutil.copytree(p, os.path.join(d, s), ignore=shutil.ignore_patterns("Images*", "*.png", "*.bmp"))
            elif os.path.exists(p):
                shutil.copy(p, d)
        edits = f if isinstance(f, list) else [(f, old, new, n)]
        for e in edits:
            p = os.path.join(d, e[0])
            t = open(p).read()
            i = -1
            for _ in range((e[3] if len(e) > 3 else 0) + 1):
                i = t.find(e[1], i + 1)
            if i < 0:
                return "OLD NOT FOUND", m, ""
            open(p, "w").write(t[:i] + e[2] + t[i + len(e[1]):])
        out, rcs = "", []
        for c in checks.lstrip("=").split(","):
            r = subprocess.run([sys.executable, os.path.join(H, "check.py"), c], env=dict(os.environ, SA_REPO=d, SA_EVID=d, SA_TUCACHE="/tmp/tucache"),
                               capture_output=True, text=True)
            rcs.append(r.returncode)
            out += "\n".join("      " + l[:300] for l in r.stdout.splitlines()[:4]) + r.stderr[-400:] + "\n"
            try:
                ev = json.load(open(os.path.join(d, c + ".json")))
                if r.returncode == 0 and not quiet:
                    out += "".join("        UND %s %s\n" % (x["rule"], x["what"][:220]) for x in ev["coverage"]["undecided_list"][:int(os.environ.get("UNDS", "3"))])
            except Exception:
                pass
        good = all(x == 0 for x in rcs) if quiet else any(x == 1 for x in rcs)
        return ("ok " if good else "****") + " rc=%s" % rcs, m, out
    finally:
        shutil.rmtree(d)


ns = {"A": 'apps/calibrate/src/calibrate.cpp', "B": 'McCalib/src/McCalib.cpp', "S": 'McCalib/src/', "G": 'McCalib/src/geometrytools.cpp'}
exec(open(sys.argv[1]).read(), ns)
shutil.rmtree("/tmp/tucache/facts", ignore_errors=True)
for x in os.listdir("/tmp/tucache") if os.path.exists("/tmp/tucache") else []:
    if x.startswith("facts-"):
        shutil.rmtree("/tmp/tucache/" + x)
with ThreadPoolExecutor(8) as ex:
    for st, m, out in ex.map(one, ns["L"]):
        o = m[2] if isinstance(m[2], str) else str(m[1])
        print("##", st, m[0], "|", o[:70].replace("\n", "~"), "->", str(m[3])[:70].replace("\n", "~") if len(m) > 3 else "")
        if not st.startswith("ok") or "-v" in sys.argv:
            print(out.rstrip())
