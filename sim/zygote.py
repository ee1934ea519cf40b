"""Worker process: imports the instrumented library once, then forks every run.

usage: zygote.py LIBSIM LIBDIR   (with LIBSIM preloaded); jobs are JSON lines on stdin.
"""
import gc
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, sys.argv[2])

import simapi  # noqa: E402

simapi.load(sys.argv[1])
if os.environ.get("SIM_BOOTENV"):
    simapi.variables(int(os.environ["SIM_BOOTENV"]))
import wicked  # noqa: E402

assert os.path.dirname(wicked.__file__) == os.path.join(sys.argv[2], "wicked"), wicked.__file__
if simapi.lib.sim_load_funcs(os.path.join(sys.argv[2], "funcs.txt").encode()) <= 0:
    sys.exit("no function table")
import core  # noqa: E402
import interp  # noqa: E402

interp.setup(wicked)
interp.cpp = simapi.cpp_api(wicked)


def warm(s):
    """exercises lazily initialised parts of Python and of the library inside a throw-away child"""
    return 0


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    gc.collect()
    gc.disable()
    gc.freeze()
    for line in sys.stdin:
        job = json.loads(line)
        t0 = time.monotonic()
        ans = {"index": job["index"]}
        try:
            prop = core.load_property(job["property"])
            ctx = core.Ctx(prop, job["property"], job["tier"], job["seed"], job["index"], t0 + job.get("limit", 600))
            if job["kind"] == "job":
                try:
                    prop.job(ctx)
                except core.Found as f:
                    ans["found"] = f.record
                except core.TooLarge as e:
                    if os.environ.get("SIM_VERBOSE"):
                        print("job %d given up: %s" % (job["index"], e), file=sys.stderr)
                    ctx.count("jobs given up because a run was too large to simulate")
                if os.environ.get("SIM_TRACE"):
                    ans["trace"] = ctx.trace
                ans.update(stats=ctx.stats, states=sorted(ctx.states), samples=ctx.samples, maximum=ctx.maximum)
            elif job["kind"] == "replay":
                rec = job["record"]
                r = ctx.raw(rec["case"], rec["plan"])
                bad = ctx.problems(rec["case"], rec["plan"], r)
                ans.update(violations=[list(b) for b in bad], kinds=core.kinds(bad), hash=r.hash, steps=r.stats["steps"],
                           switches=r.stats["switches"])
            elif job["kind"] == "plain":  # in a process started for this job in another environment
                ans.update(value=prop.want(ctx, job["case"]))
            elif job["kind"] == "run":  # determinism test: hashes of the plans of a job
                ans.update(hashes=prop.hashes(ctx))
        except core.HarnessError as e:
            ans["harness"] = str(e)
        except Exception:
            ans["harness"] = traceback.format_exc()
        ans["wall"] = time.monotonic() - t0
        out.write(json.dumps(ans) + "\n")
        out.flush()


main()
