"""Entry point: ``check.py <property id>`` or ``check.py replay <file>``."""
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

import warnings  # noqa: E402

warnings.simplefilter("ignore")


def main(argv):
    if argv[:1] == ["selftest"]:
        from vf import selftest, sut

        sut.load()
        return selftest.main()
    from vf import runner
    from vf.props import MODULES

    if argv[:1] == ["replay"]:
        return runner.replay(argv[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return runner.run(MODULES[argv[0]], tier, os.environ.get("VERIF_SEED", "0"))


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
