#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]   (tier also from VERIF_TIER)"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import vt  # noqa: E402


def setup():
    """Nothing to build: check that the tools are there and the specs parse."""
    import glob
    import subprocess
    for f in sorted(glob.glob(os.path.join(vt.SPEC, "*.tla"))):
        p = subprocess.run(["java", "-cp", vt.CP, "tla2sany.SANY", f], cwd=vt.SPEC,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or "*** Errors" in p.stdout:
            print(p.stdout)
            return 1
    print("specifications parse")
    return 0


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        return setup()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = importlib.import_module("check_" + prop.lower())
    c = vt.Check(prop, tier)
    try:
        mod.run(c)
        return c.finish()
    except vt.MachineryError as e:
        print("MACHINERY ERROR:", e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        c.cleanup()


if __name__ == "__main__":
    sys.exit(main())
