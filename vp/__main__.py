import importlib, os, sys, traceback
from . import base


def main():
    if len(sys.argv) < 2:
        print("usage: check <property id>")
        return 2
    pid = sys.argv[1]
    mod = importlib.import_module("vp.c_" + pid.lower())
    try:
        return mod.main()
    except base.ToolError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
