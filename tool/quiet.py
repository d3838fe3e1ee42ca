"""Development aid: behaviour-preserving changes of /repo's sources on which every check has to stay quiet.
usage: quiet.py [-c C01,C02] [name...]"""
import os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {"A": 'apps/calibrate/src/calibrate.cpp', "B": 'McCalib/src/McCalib.cpp', "S": 'McCalib/src/', "I": 'McCalib/include/'}
exec(open(os.path.join(H, "tool", "quiet_list.py")).read(), ns)
Q = ns["Q"]
args = sys.argv[1:]
checks = sorted(x[:3] for x in os.listdir(os.path.join(H, "checks")) if x.startswith("C"))
if "-c" in args:
    i = args.index("-c")
    checks = args[i + 1].split(",")
    del args[i:i + 2]
build = "-b" in args
args = [a for a in args if not a.startswith("-")]


def one(name):
    d = tempfile.mkdtemp(prefix="quiet")
    try:
        for s in ('McCalib', 'apps', 'configs', 'tests', 'CMakeLists.txt', 'python_utils', 'README.md'):
            p = os.path.join('/repo', s)
            if os.path.isdir(p):
                shutil.copytree(p, os.path.join(d, s), ignore=shutil.ignore_patterns("Images*", "*.png", "*.bmp"))
            elif os.path.exists(p):
                shutil.copy(p, d)
        for e in Q[name]:
            p = os.path.join(d, e[0])
            t = open(p).read()
            if len(e) == 2:
                t += e[1]
            elif len(e) > 3 and e[3] == "all":
                if e[1] not in t:
                    return name, "OLD NOT FOUND " + e[1][:60], ""
                t = t.replace(e[1], e[2])
            else:
                i = -1
                for _ in range((e[3] if len(e) > 3 else 0) + 1):
                    i = t.find(e[1], i + 1)
                if i < 0:
                    return name, "OLD NOT FOUND " + e[1][:60], ""
                t = t[:i] + e[2] + t[i + len(e[1]):]
            open(p, "w").write(t)
        out, bad = "", []
        env = dict(os.environ, SA_REPO=d, SA_EVID=d, SA_TUCACHE="/tmp/tucache")
        for c in checks:
            r = subprocess.run([sys.executable, os.path.join(H, "check.py"), c], env=env, capture_output=True, text=True)
            if r.returncode:
                bad.append("%s rc=%d" % (c, r.returncode))
                out += "\n".join("      " + l[:400] for l in r.stdout.splitlines()[:4]) + r.stderr[-600:] + "\n"
        return name, "ok" if not bad else "**** " + " ".join(bad), out
    finally:
        shutil.rmtree(d)


for x in os.listdir("/tmp/tucache") if os.path.exists("/tmp/tucache") else []:
    if x.startswith("facts"):
        shutil.rmtree("/tmp/tucache/" + x)
with ThreadPoolExecutor(8) as ex:
    for n, st, out in ex.map(one, args or list(Q)):
        print(n, st)
        if st != "ok":
            print(out.rstrip())
