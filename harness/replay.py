"""Re-run a saved minimal failure without Hypothesis:  python -W ignore harness/replay.py evidence/replay/C01.json"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import env                                            # noqa: E402,F401
import json                                                        # noqa: E402
import shutil                                                      # noqa: E402
import tempfile                                                    # noqa: E402
import warnings                                                    # noqa: E402

warnings.simplefilter("ignore")
from harness import core, run                                      # noqa: E402


def main(path):
    with open(path) as f:
        rep = json.load(f)
    subs = run.load_property(rep["property"])
    if rep["mode"] == "import":
        print("imports now: no failure")
        return 0
    s = subs[rep["sub"]]
    d = tempfile.mkdtemp(prefix="replay-")
    try:
        if rep["mode"] == "campaign":
            c = core.Campaign(s, rep["n"], rep["seed"], d).run()
            failure = c.failure and c.failure[1]
        else:
            _, v = core.run_case(s, rep["case"], d)
            failure = v and str(v)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if failure:
        print("REPRODUCED property=%s sub=%s: %s" % (rep["property"], rep["sub"], failure))
        return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
