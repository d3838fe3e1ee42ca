"""seeds whose patch changes no line of the original repository"""
import glob, re, subprocess, sys
BASE = "81290c0"
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f, hit, dele = None, 0, 0
    for l in open(p):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            base = set(subprocess.run(["git", "-C", "/repo", "show", BASE + ":" + f], capture_output=True, text=True).stdout.split("\n"))
        elif l.startswith("-") and not l.startswith("---"):
            dele += 1
            hit += l[1:].rstrip("\n") in base
    print("%-40s removed %d, original %d%s" % (p.split("/")[3], dele, hit, "" if hit else "   <<<<"))
