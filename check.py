#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property on /repo's current working tree."""
import importlib, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)

from sa import core, ir  # noqa: E402


def main(out):
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        mod = importlib.import_module("sa.rules." + prop.lower())
        ctx = core.Ctx(tier)
        res = mod.run(ctx)
        out.append(core.finish(prop, res, ctx, t0, tier, seed))
    except ir.FrontendError as e:
        print(f"ERROR {prop}: {e}")
        out.append(2)
    except core.Anchor as e:
        print(f"ERROR {prop}: anchor gone: {e}")
        out.append(3)
    except Exception:
        traceback.print_exc()
        out.append(4)


if __name__ == "__main__":
    out = []
    t = threading.Thread(target=main, args=(out,))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 5)
