import importlib
import io
import os
import signal
import sys
import traceback
import warnings

from harness.core import Ctx, Stop, Inconclusive, HOME, Case


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    mod = importlib.import_module("checks.%s" % pid.lower())
    ctx = Ctx(pid, tier, seed, mod.RULE)
    sys.stdout = io.StringIO() if not os.environ.get("VERIF_VERBOSE") else sys.__stdout__

    class Quiet(io.StringIO):
        def write(self, s):
            return len(s)
    if not os.environ.get("VERIF_VERBOSE"):
        sys.stdout = Quiet()

    def on_term(*_):
        raise Inconclusive("watchdog")
    signal.signal(signal.SIGTERM, on_term)
    try:
        mod.run(ctx)
    except Stop:
        pass
    except Inconclusive as e:
        ctx.inconclusive.append(str(e))
    except BaseException:
        ctx.inconclusive.append(traceback.format_exc()[-3000:])
    rc = ctx.finish()
    sys.stdout = sys.__stdout__
    os._exit(rc) if rc is not None else None


if __name__ == "__main__":
    try:
        main()
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(2)
