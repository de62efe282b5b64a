import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core  # noqa

MODULES = {}


def where(pid):
    import json

    return json.load(open(os.path.join(core.VERIF, "mc", "index.json")))[pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append", default=[], help="key=value task filter (debugging)")
    a = ap.parse_args()
    only = dict(o.split("=", 1) for o in a.only) or None
    core_ok = core._load_repo()  # noqa
    mod = importlib.import_module("mc.props." + where(a.property))
    return core.main(mod.PROPS, a.property, a.tier, a.replay, only)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
