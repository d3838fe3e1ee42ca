#!/usr/bin/env python3
"""check.py <ID> [--thorough]: decide one property on the current /repo."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def go():
        from sa import core, facts
        pid = sys.argv[1]
        try:
            c = core.Check(pid, "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick"))
            mod = importlib.import_module("checks." + pid)
            level, note = mod.run(c)
            rc[0] = c.finish(level, note)
        except facts.Broken as e:
            print("BROKEN %s: %s" % (pid, e))
        except Exception:
            traceback.print_exc()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == "__main__":
    main()
