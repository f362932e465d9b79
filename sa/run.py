"""Entry point: python3 -m sa.run <property id> [--tier quick|thorough]"""
from __future__ import annotations

import importlib
import os
import sys
import traceback

from .core import AnalysisBroken, Repo
from .report import Check


def main(argv):
    sys.setrecursionlimit(20000)
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        repo = Repo(os.environ.get("VERIF_REPO", "/repo"))
        c = Check(pid, tier, repo)
        mod = importlib.import_module(f"sa.rules.{pid.lower()}")
        broken = None
        try:
            mod.run(c)
        except AnalysisBroken as e:
            broken = e
        if broken is not None:
            c.mins = []
            rc = c.finish()
            if rc == 1:
                return 1
            raise broken
        return c.finish()
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={pid}: internal error")
        return 2


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0] if rc else 2)
