"""Executes scenarios of one property on the real pointpats; one line per scenario."""

import json
import os
import signal
import sys
import warnings

sys.path.insert(0, os.environ["POINTPATS_REPO"])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter("ignore")

import core  # noqa: E402


def main():
    prop, fi, fo = sys.argv[1:4]
    import libpysal, matplotlib.pyplot, pandas, scipy.spatial, shapely  # noqa: E401, F401

    if os.environ.get("VERIF_NO_NUMBA"):
        sys.modules["numba"] = None
    # from here on compile from source: never a stale cache of /repo
    sys.pycache_prefix = os.path.join(os.path.dirname(fo), "pyc")
    import pointpats

    assert os.path.realpath(pointpats.__file__).startswith(
        os.path.realpath(os.environ["POINTPATS_REPO"])), pointpats.__file__
    mod = core.load(prop)
    with open(fi) as f:
        scns = json.load(f)

    def onalarm(*_):
        raise core.TimeLimit()

    signal.signal(signal.SIGALRM, onalarm)
    limit = getattr(mod, "LIMIT_S", 60)
    if hasattr(mod, "warmup"):
        mod.warmup()
    hung = 0
    with open(fo, "w") as out:
        for s in scns:
            if hung >= 3:   # the scenarios left out count as rejected
                break
            rec = core.Rec()
            signal.setitimer(signal.ITIMER_REAL, limit)
            try:
                mod.execute(s, rec)
            except core.TimeLimit:
                hung += 1
                rec.ev("Fail", s.get("key", ""))
                rec.events[-1]["exc"] = f"no answer within {limit} s"
            except Exception as ex:
                import traceback

                rec.ev("Fail", s.get("key", ""))
                rec.events[-1]["exc"] = f"{type(ex).__name__}: {ex}"[:200]
                rec.events[-1]["tb"] = traceback.format_exc()[-600:]
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                txt = json.dumps({"scn": s["id"], "events": rec.events}, allow_nan=False)
            except ValueError:
                txt = json.dumps({"scn": s["id"], "events": [
                    {"op": "Fail", "key": s.get("key", ""), "exc": "unencodable output"}]})
            out.write(txt + "\n")
            out.flush()


main()
