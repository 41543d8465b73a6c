"""Re-run counterexamples concretely on the real code:  python -m sx.replay IN [OUT]"""
from __future__ import annotations

import json
import os
import sys
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


def run_one(check, it):
    from .core import Ctx, PathAbort, Unsupported, Violation, set_cur
    h = check.HARNESSES[it["hi"]]
    ctx = Ctx("conc", values=it["values"])
    set_cur(ctx)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h.fn(ctx, **it["cfg"])
    except PathAbort as e:
        return dict(failures=ctx.failures, aborted=str(e))
    except Violation as v:
        ctx.failures.append((v.label, str(v.detail)))
    except Unsupported as e:
        return dict(error=str(e))
    except Exception as e:  # noqa: BLE001
        fs = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in fs if "/instancespace/" in f.filename]
        # an output of the real code lacks a row or column the property speaks about
        if isinstance(e, IndexError) and "/checks/" in fs[-1].filename:
            ctx.failures.append(("raises IndexError", f"an output has too few elements: {e}"))
            return dict(failures=[[a, str(b)[:800]] for a, b in ctx.failures])
        if not inrepo:
            return dict(error=traceback.format_exc()[-1500:])
        where = ", ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in inrepo[-2:])
        ctx.failures.append((f"raises {type(e).__name__}", f"{e} at {where}"))
    finally:
        set_cur(None)
    return dict(failures=[[a, str(b)[:800]] for a, b in ctx.failures])


def main():
    with open(sys.argv[1]) as f:
        data = json.load(f)
    from . import hook
    hook.install()
    from .run import load_check
    from loguru import logger
    logger.remove()
    check = load_check(data["property"])
    out = []
    for it in data["items"]:
        try:
            out.append(run_one(check, it))
        except BaseException:  # noqa: BLE001
            out.append(dict(error=traceback.format_exc()[-1500:]))
    if len(sys.argv) > 2:
        with open(sys.argv[2], "w") as f:
            json.dump(out, f)
    else:
        print(json.dumps(out, indent=1))
        sys.exit(1 if any(r.get("failures") for r in out) else 0)


if __name__ == "__main__":
    main()
