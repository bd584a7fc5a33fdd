"""Entry point: run.py PXX [--thorough]"""
import sys

import vf

import checks


def main():
    prop = sys.argv[1]
    ck = vf.Check(prop)
    try:
        for f in checks.CHECKS[prop]:
            f(ck, prop)
    except vf.ToolError as e:
        print("TOOL-ERROR %s: %s" % (prop, e))
        # a violation already found is still a violation
        if ck.viol:
            return ck.finish()
        return 2
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
