"""C11: diagnostic output and its failures never influence results."""
import core
import gen
import interp
import model
import progs
from props import common

LEVEL = "fault_enumeration"
JOBS = {"quick": 120, "thorough": 4000}
RULE = ("sequences of contractions at seeded print levels, threaded and single-threaded, between other library calls; the writes to the "
        "diagnostic streams are counted and then fail from a seeded point on, once or for good, with a seeded error, partly written or "
        "not, and Python's own stdout is replaced by failing, closed or missing streams; every value is compared with a silent process, "
        "silent contractions must write nothing; non-trivial: a write failed or a context switch")
LEVELS = ["basic", "summary", "detailed", "all"]
ERRNO = {"ENOSPC": 28, "EBADF": 9, "EPIPE": 32, "EIO": 5, "EINTR": 4, "EAGAIN": 11, "EFBIG": 27}


class BadStream:
    """a Python stream that refuses everything"""
    closed = False
    encoding = "utf-8"

    def __init__(self, exc):
        self.exc = exc

    def write(self, s):
        raise self.exc

    def flush(self):
        raise self.exc


def stdout_of(kind):
    import io
    if kind == "oserror":
        return BadStream(OSError(28, "No space left on device"))
    if kind == "valueerror":
        return BadStream(ValueError("I/O operation on closed file"))
    if kind == "closed":
        s = io.StringIO()
        s.close()
        return s
    if kind == "none":
        return None
    return io.StringIO()


def execute(sim, case, plan):
    import sys
    faults = {}
    for f in plan.get("opfaults", []):
        faults.setdefault(f[0], []).append(f[1:])
    w = interp.w
    interp.define(case["tab"])
    m = interp.Machine()
    m.run(case["setup"])
    engines = [w.WickTheorem() for _ in range(2)]
    ops = [common.build_query(q) for q in case["queries"]]
    old = sys.stdout, sys.stderr
    if case["stdout"] != "real":
        sys.stdout, sys.stderr = stdout_of(case["stdout"]), stdout_of(case["stdout"])
    out = []
    sim.begin()
    for k, s in enumerate(case["steps"]):
        w0, n0 = sim.out_writes, sim.ctr("outfail")
        for nth, count, err in faults.get(k, []):
            sim.fault(4, 0xFFFFFFFF, w0 + nth, count, err)
        if s[0] == "contract":
            e = engines[s[1]]
            try:
                interp.configure(e, s[3])
                v = repr(common.contract(e, case["queries"][s[2]], ops[s[2]]))
            except Exception as ex:
                v = "!" + type(ex).__name__
        else:
            v = m.step(s[1])[0]
        if not case["keep"]:
            sim.clear_faults()
        out.append([v, sim.out_writes - w0, sim.ctr("outfail") - n0])
    sim.clear_faults()
    sys.stdout, sys.stderr = old
    return out


def silent(ctx, case):
    def f():
        interp.define(case["tab"])
        m = interp.Machine()
        m.run(case["setup"])
        return [m.step(s[1])[0] if s[0] == "call" else None for s in case["steps"]]
    return ctx.oracle(f, [case["tab"], case["setup"], case["steps"]])


def settings_at(case, k):
    s = []
    for j in range(k + 1):
        if case["steps"][j][0] == "contract" and case["steps"][j][1] == case["steps"][k][1]:
            s += case["steps"][j][3]
    return s


def judge(ctx, case, plan, r):
    bad = []
    calls = silent(ctx, case)
    for k, (s, v) in enumerate(zip(case["steps"], r.value)):
        if s[0] == "contract":
            ss = settings_at(case, k)
            ref = [["cumulant", common.setting(ss, "cumulant", 100)], ["canon", common.setting(ss, "canon", True)], ["single", True]]
            q = case["queries"][s[2]]
            want = ctx.oracle(lambda: common.fresh(case["tab"], ref, q), [case["tab"], ref, q])
            want = want[2:] if isinstance(want, str) else "!" + want[1]
            level = common.setting(ss, "print", "none")
            if v[0] != want:
                bad.append(("result depends on output", "step %d, contraction at print level %s with %d failed writes returned %s instead of %s" % (k, level, v[2], v[0], want)))
            if level == "none" and v[1]:
                bad.append(("output while silent", "step %d, a contraction with diagnostics off wrote %d times" % (k, v[1])))
        elif v[0] != calls[k]:
            bad.append(("result depends on output", "step %d (%s) returned %s instead of %s" % (k, s[1][1], v[0], calls[k])))
    if not any(s[0] == "contract" and common.setting(settings_at(case, k), "print", "none") != "none" for k, s in enumerate(case["steps"])):
        if r.out and case["stdout"] == "real":
            bad.append(("output while silent", "%d bytes reached the standard streams with diagnostics off" % r.out))
    return bad


def shrink(case, plan):
    st = case["steps"]
    n = len(st)
    for size in (n // 2, 1):
        if size < 1:
            continue
        for i in range(0, n, size):
            keep = st[:i] + st[i + size:]
            fs = [f if f[0] < i else [f[0] - size] + f[1:] for f in plan.get("opfaults", []) if f[0] < i or f[0] >= i + size]
            if keep:
                yield dict(case, steps=keep), dict(plan, opfaults=fs)
    for i, q in enumerate(case["queries"]):
        for q2 in common.shrink_query(q):
            yield dict(case, queries=case["queries"][:i] + [q2] + case["queries"][i + 1:]), plan
    if case["stdout"] != "real":
        yield dict(case, stdout="real"), plan
    if case["keep"]:
        yield dict(case, keep=False), plan


def gen_case(rng):
    for _ in range(60):
        tab = gen.gen_table(rng, 3)
        qs = [common.contraction_query(rng, tab, rng.choice([4, 4, 6, 6, 8]), rng.choice([1, 2, 2]), rng.choice([1, 1, 2])) for _ in range(rng.choice([1, 2]))]
        try:
            if max(len(common.model_result(tab, [], q, 14)) for q in qs) < 1:
                continue
        except model.TooBig:
            continue
        break
    g = progs.Gen(rng, tab)
    steps = []
    quiet = rng.random() < 0.15
    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.7:
            ch = []
            if rng.random() < 0.7:
                ch.append(["print", rng.choice(["none"] if quiet else LEVELS + ["none"])])
            if rng.random() < 0.4:
                ch.append(["single", rng.random() < 0.5])
            if rng.random() < 0.2:
                ch.append(["canon", rng.random() < 0.5])
            steps.append(["contract", rng.randrange(2), rng.randrange(len(qs)), ch])
        else:
            steps.append(["call", g.call([x for x in progs.VALUE_OPS if x != "contract"])])
    stdout = rng.choice(["real"] * 8 + ["oserror", "valueerror", "closed", "none", "string"])
    return {"tab": tab, "queries": qs, "setup": g.steps, "steps": steps, "stdout": stdout, "keep": rng.random() < 0.3}


def job(ctx):
    rng = ctx.rng
    for _ in range(2):
        if ctx.late():
            return
        case = gen_case(rng)
        ctx.stats["cases"] += 1
        base = ctx.check(case, {"cfg": dict(core.SEQCFG)})
        sites = [(k, v[1]) for k, v in enumerate(base.value) if v[1]]
        ctx.count("writes in the cases", sum(n for _, n in sites))
        scale = max(100, base.stats["steps"])
        for i in range((4 if scale > 2000000 else 10) if ctx.quick else 60):
            if ctx.late():
                return
            fs = []
            for k, n in sites:
                if rng.random() < 0.7:
                    nth = 0 if rng.random() < 0.3 else rng.randrange(n)
                    fs.append([k, nth, rng.choice([1, 1, 2, 10, 1 << 40, 1 << 40]), rng.choice(list(ERRNO.values()))])
            ctx.check(case, {"cfg": core.cfg_for(rng, scale=scale), "opfaults": fs})
