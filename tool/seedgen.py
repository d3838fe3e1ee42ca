"""Generates /verif/seeded/<id>/ (patch.diff, demo.sh, demo.cpp, rig.hpp, meta.json) from tool/seeds/<id>.py.
Each seed file defines prop, needs, breaks, edits=[(file, old, new[, n])], cpp (demo source), demo (optional own demo.sh)."""
import glob, json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds on the built tree in the current directory
set -e
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp -d /tmp/demoXXXXXX)
trap 'rm -rf "$o"' EXIT
r=$(pwd)
g++ -std=c++17 -O1 -DNDEBUG -I"$d" -I"$r/McCalib/include" -I"$r/McCalib/src" -isystem /usr/include/opencv4 -isystem /usr/include/eigen3 \\
 "$d/demo.cpp" -o "$o/demo" "$r/_build/McCalib/libMcCalib.a" \\
 -lopencv_aruco -lopencv_calib3d -lopencv_highgui -lopencv_imgcodecs -lopencv_imgproc -lopencv_core \\
 -lceres -lglog -Wl,-Bstatic -lboost_log -lboost_chrono -lboost_filesystem -lboost_regex -lboost_thread -lboost_atomic -lboost_system -Wl,-Bdynamic -lrt -lpthread
cd "$o"
timeout 200 ./demo > out.txt 2>&1 && rc=0 || rc=$?
grep FAILED out.txt || true
exit $rc
'''
for p in sorted(glob.glob(os.path.join(H, "tool/seeds/*.py"))):
    i = os.path.basename(p)[:-3]
    if len(sys.argv) > 1 and i not in sys.argv[1:]:
        continue
    ns = {"A": 'apps/calibrate/src/calibrate.cpp', "B": 'McCalib/src/McCalib.cpp', "S": 'McCalib/src/', "I": 'McCalib/include/'}
    exec(open(p).read(), ns)
    d = os.path.join(H, "seeded", i)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed")
    files = sorted({e[0] for e in ns["edits"]})
    for side in "ab":
        for f in files:
            q = os.path.join(t, side, f)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copy(os.path.join("/repo", f), q)
    for e in ns["edits"]:
        q = os.path.join(t, "b", e[0])
        s = open(q).read()
        k = -1
        for _ in range((e[3] if len(e) > 3 else 0) + 1):
            k = s.find(e[1], k + 1)
        if k < 0:
            sys.exit("%s: old text not found: %s" % (i, e[1][:80]))
        open(q, "w").write(s[:k] + e[2] + s[k + len(e[1]):])
    diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(t)
    open(os.path.join(d, "demo.sh"), "w").write(ns.get("demo", DEMO))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if "cpp" in ns:
        open(os.path.join(d, "demo.cpp"), "w").write(ns["cpp"])
        if "rig.hpp" in ns["cpp"]:
            shutil.copy(os.path.join(H, "tool/rig/rig.hpp"), d)
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(i)
