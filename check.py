#!/usr/bin/env python3
"""Static checks of pvgridder: ``check.py <property> [quick|thorough]``.

Reads /repo's sources (never imports or runs them), decides one property, writes
evidence/<property>.json; exit 0 no violation in what could be decided, 1 violated, 3 sources unreadable.
"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from pvstatic import registry  # noqa: E402
from pvstatic.report import Broken, Report, finish  # noqa: E402


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    run, meta, needs_ip = registry.get(prop)
    rep = Report(prop, tier)
    ip = None
    try:
        if needs_ip:
            from pvstatic.interp import Interp

            ip = Interp()
        run(rep, ip, tier)
        if not rep.obligations:
            raise Broken("no obligation found")
    except SyntaxError:
        raise
    except Exception as e:  # what was decided so far stands; the rest is undecided
        if not isinstance(e, Broken):
            traceback.print_exc()
        rep.skip(f"analysis stopped: {type(e).__name__}: {e}")
        print(f"{prop}: UNDECIDED: analysis stopped: {type(e).__name__}: {e}")
    return finish(rep, ip, meta)


if __name__ == "__main__":
    try:
        code = main(sys.argv)
    except Exception:
        traceback.print_exc()
        code = 3
    sys.exit(code)
