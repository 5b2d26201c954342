"""Executes cases of one property against the real library (imported from
/repo) and writes one recorded behaviour per line.  Run as a subprocess:
    runner.py PROPERTY IN.ndjson OUT.ndjson SECONDS_PER_CASE
"""
import importlib
import json
import os
import signal
import sys
import traceback
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)


class CaseTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise CaseTimeout()


def main():
    prop, fin, fout, limit = sys.argv[1:5]
    limit = float(limit)
    signal.signal(signal.SIGALRM, _alarm)
    mod = None
    import_error = None
    try:
        import tftb
        if not os.path.realpath(tftb.__file__).startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError("tftb imported from %s" % tftb.__file__)
        import tftb.generators, tftb.processing, tftb.utils  # NOQA
        mod = importlib.import_module("harness." + prop.lower())
        if hasattr(mod, "setup"):
            mod.setup()
    except Exception as e:  # the tree under test does not even import
        import_error = "import:%s:%s" % (type(e).__name__, e)
    import numpy as np
    np.seterr(all="ignore")
    with open(fin) as f, open(fout, "w") as g:
        for line in f:
            case = json.loads(line)
            if import_error is None:
                signal.setitimer(signal.ITIMER_REAL, case.get("limit", limit))
                try:
                    rec = mod.execute(case)
                    rec.setdefault("status", "ok")
                except CaseTimeout:
                    rec = {"status": "timeout"}
                except MemoryError:
                    rec = {"status": "raised:MemoryError"}
                except Exception as e:
                    rec = {"status": "raised:%s" % type(e).__name__,
                           "error": "".join(traceback.format_exception_only(type(e), e)).strip()[:300]}
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            else:
                rec = {"status": import_error[:200]}
            base = mod.base(case) if (mod is not None and hasattr(mod, "base")) else {}
            out = dict(base)
            out.update(rec)
            out["id"] = case["id"]
            g.write(json.dumps(out, separators=(",", ":")) + "\n")
            g.flush()
    return 0


if __name__ == "__main__":
    sys.exit(main())
