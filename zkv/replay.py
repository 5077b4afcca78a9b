"""python -m zkv.replay FILE...: re-execute saved cases without Hypothesis' search."""
import importlib
import json
import sys
import traceback

from zkv import boot


def main():
    boot.import_paths()
    from zkv import core

    bad = 0
    for path in sys.argv[1:]:
        d = json.load(open(path))
        prop = importlib.import_module("zkv.props." + d["property"].lower()).PROP
        sub = [s for s in prop.subs if s.name == d["check"]]
        if not sub:
            print("unknown check", d["check"], file=sys.stderr)
            sys.exit(2)
        try:
            core.run_case(sub[0], d["case"])
            print("PASS", path)
        except core.Violation as v:
            bad = 1
            print("FAIL", path, str(v).replace("\n", " "))
        except core.Inconclusive:
            print("INCONCLUSIVE", path)
    sys.exit(bad)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
