#!/usr/bin/env python3
"""Run one property's static check against /repo's current working tree."""
import importlib
import os
import sys
import traceback

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.project import AnalysisBroken, Project  # noqa: E402
from sa.report import Report  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = importlib.import_module(f"rules.{prop.lower()}")
    rep = Report(prop, tier)
    project = None
    try:
        project = Project()
        mod.run(project, rep, tier)
    except AnalysisBroken as e:
        rep.broken(str(e))
    except RecursionError as e:
        rep.broken(f"recursion: {e}")
    except Exception:
        rep.broken(traceback.format_exc())
    if project is None:
        for e in rep.errors:
            print("ANALYSIS-BROKEN", e)
        return 3
    return rep.finish(project, getattr(mod, "ASSUMPTIONS", ()))


if __name__ == "__main__":
    sys.exit(main())
