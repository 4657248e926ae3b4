#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current tree (tier and seed from VERIF_TIER, VERIF_SEED).
check.py --replay FILE: run the case of a replay file again."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, driver, props


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return props.replay(json.load(open(sys.argv[2])))
    if len(sys.argv) != 2 or sys.argv[1] not in props.PROPS:
        print("usage: check.py ID | --replay FILE; ids: " + " ".join(sorted(props.PROPS)))
        return 2
    try:
        return props.PROPS[sys.argv[1]]()
    except build.BuildError as e:
        print("build failed: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
