#!/usr/bin/env python3
"""check.py <PROPERTY-ID> [--tier quick|thorough] [--seed N]: decide one property on /repo's working tree."""
import argparse, importlib, os, resource, shutil, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True
import common


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    # code that writes without end is stopped (SIGXFSZ in the process under test) before it fills the memory of the checker
    resource.setrlimit(resource.RLIMIT_FSIZE, (200 << 20, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    mod = importlib.import_module(a.pid.lower())
    ctx = common.Ctx(a.pid, a.tier, a.seed)
    try:
        try:
            mod.run(ctx)
        except common.Stop:
            pass
        if not ctx.viol and (ctx.evaluations == 0 or not ctx.distinct):
            raise common.HarnessError("nothing was observed")
        rc = ctx.finish(getattr(mod, "LEVEL", "exploration"))
    except Exception as e:
        traceback.print_exc()
        if isinstance(e, (LookupError, ValueError, TypeError, AttributeError, ArithmeticError)):
            ctx.violation("unreadable record: %s" % type(e).__name__, traceback.format_exc()[-1500:])
        # a violation established before the harness failed is still a violation
        rc = ctx.finish(getattr(mod, "LEVEL", "exploration")) if ctx.viol else 2
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


main()
