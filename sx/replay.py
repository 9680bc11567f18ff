"""Re-run a counterexample on the real, unpatched code.

exit 1: the property is violated there too; 0: it is not; 4: not applicable (assumption false)."""
from __future__ import annotations

import importlib
import json
import sys
import traceback


def main(argv):
    d = json.load(open(argv[0]))
    jit = "--jit" in argv
    from . import load

    load.load(interpreted=not jit)
    mod = importlib.import_module(d["module"])
    from .ctx import AssumptionFailed, ConcCtx, Violated

    task = [t for t in mod.tasks(d["tier"]) if t.name == d["task"]][0]
    ctx = ConcCtx(d["model"], jit=jit, loose=task.opts.get("loose") or 1e-6)
    import warnings

    warnings.simplefilter("ignore")
    try:
        task.fn(ctx, **task.cfg)
    except Violated as e:
        print(f"reproduced: {e}")
        print(f"inputs: {d['model'].get('inputs')} choices: {d['model'].get('choices')}")
        return 1
    except AssumptionFailed:
        print("assumption of the harness is false for these values")
        return 4
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/nbkode/" in f.filename or "/scipy/" in f.filename]
        if isinstance(e, RuntimeError) and any("newton" in f.name for f in where):
            print("the root finder does not converge for these values")
            return 4
        if where:
            print(f"reproduced: unexpected {type(e).__name__}: {e} at {where[-1].name}:{where[-1].lineno}")
            print(f"inputs: {d['model'].get('inputs')} choices: {d['model'].get('choices')}")
            return 1
        traceback.print_exc()
        return 5
    print(f"not reproduced ({ctx.checked} checks passed)")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
