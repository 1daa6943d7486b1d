"""Setup: nothing to build (the code runs from source). Verifies that the
harness can run, and that one case of every check is repeatable."""
from . import env  # noqa: F401
import glob
import json
import os
import sys

from . import core, runner


def main():
    ids = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(env.VERIF, "checks", "c*.py")))
    for id in ids:
        check = runner.load_check(id)
        case = json.loads(json.dumps(check.generate(core.rng_for(id, 0, 0))))
        a, b = (runner.run_case(check, case) for _ in "ab")
        if a[2]:
            print(a[2])
            return 2
        print(id, "ok" if a[0].log.digest() == b[0].log.digest() else "NOT REPEATABLE")
    return 0


if __name__ == "__main__":
    sys.exit(main())
