"""The Python experiment tools (batches, repeater, random search, non-anytime problem, options, settings) against their models."""
import json, os, subprocess
import pybuild
from common import SAN_ENV, VERIF, HarnessError

COUNTS = {"batches": (60, 400), "repeater": (150, 1500), "solver": (60, 400), "nonanytime": (90, 600), "options": (60, 300), "settings": (150, 1500), "texts": (30, 200)}
PARTS = 4


def run(ctx):
    ctx.rule = "one case = one random program of one tool (batches, repeater, random search, non-anytime problem, options, settings, progress texts), every answer judged by its model; all distinct by seed"
    site = pybuild.build("fast")
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update(pybuild.env("fast", site))
    todo = [(k, p, COUNTS[k][0 if ctx.quick else 1]) for k in COUNTS for p in range(PARTS if ctx.quick else 8)]

    def one(t):
        kind, part, n = t
        seed = "%d.%d" % (ctx.seed, part)
        d = ctx.mkdir("tools")
        out = os.path.join(ctx.mkdir("io"), "out")
        cmd = [pybuild.VENV, "-W", "ignore", os.path.join(VERIF, "drv", "pyutil.py"), out, kind, seed, str(n), d]
        try:
            p = subprocess.run(cmd, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, errors="replace", timeout=240 if ctx.quick else 3000)
        except subprocess.TimeoutExpired:
            done = open(out + ".n").read() if os.path.exists(out + ".n") else "none"
            return ctx.violation("hang: " + kind, "the workload %s did not end; last completed case: %s" % (" ".join(cmd[4:7]), done), {"cmd": cmd})
        if not os.path.exists(out):
            if p.returncode < 0 or "COCO FATAL" in p.stderr:
                return ctx.violation("interpreter lost: " + kind, "rc %s: %s" % (p.returncode, p.stderr[-1500:]), {"cmd": cmd})
            raise HarnessError("the workload %s ended with %s: %s" % (kind, p.returncode, p.stderr[-2000:]))
        r = json.load(open(out))
        for key, detail in r["bad"]:
            ctx.violation(key, "%s" % detail, {"workload": kind, "seed": seed, "detail": detail})
        ctx.bump(**{"judged_" + kind: r["events"]})
        ctx.bump(**{s.replace(" ", "_").replace(",", ""): n for s, n in r["seen"].items()})
        for k in range(r["cases"]):
            ctx.case((kind, seed, k), {"workload": kind, "seen": r["seen"]} if k == 0 else None)
        ctx.drop(d)

    ctx.par(one, todo)
