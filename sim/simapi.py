"""Python side of the simulator: control of libsim and simulated runs in forked children.

Everything here runs in a zygote process (see zygote.py) that preloaded libsim
and imported the instrumented wicked.  The zygote never calls the library
itself after the warm-up: every simulated run and every oracle that needs the
library happens in a forked child, so each starts from the same pristine state.
"""
import ctypes
import gc
import hashlib
import json
import os
import resource
import select
import signal
import struct
import sys
import time
import traceback

SEQ, GAP, PCT, SYNC, CONFLICT, REPLAY, RR = range(7)
POLICY_NAMES = ["sequential", "random-gap", "pct", "sync-points", "conflicts", "replay", "round-robin"]
F_ALLOC, F_THREAD, F_CLOCK, F_OUT, F_STALL, F_GALLOC, F_GTHREAD = 1, 2, 3, 4, 5, 6, 7
FAULT_NAMES = {1: "allocation failure", 2: "thread launch failure", 3: "wall clock jump", 4: "output failure",
               5: "stalled thread", 6: "allocation failure", 7: "thread launch failure"}
ANY = 0xFFFFFFFF
CTR = ("threads tfail alloc afail clock jump out outfail stall lockwait timeout access sync conflict live_blocks "
       "live_bytes maxthreads yield nproc freed preempt alloc_main leaked heapused outbytes deadline create_attempt "
       "eagain forced").split()

lib = None
shared = None


class Dev(ctypes.Structure):
    _fields_ = [("tid", ctypes.c_uint32), ("tstep", ctypes.c_uint32), ("kind", ctypes.c_uint32), ("target", ctypes.c_uint32)]


class Rep(ctypes.Structure):
    _fields_ = [("kind", ctypes.c_uint32), ("t1", ctypes.c_uint32), ("t2", ctypes.c_uint32), ("w1", ctypes.c_uint32),
                ("w2", ctypes.c_uint32), ("pc1", ctypes.c_uint64), ("pc2", ctypes.c_uint64), ("addr", ctypes.c_uint64),
                ("count", ctypes.c_uint64)]


class Shared(ctypes.Structure):
    _fields_ = [("status", ctypes.c_uint32), ("ndev", ctypes.c_uint32), ("nrep", ctypes.c_uint32), ("devoverflow", ctypes.c_uint32),
                ("hash", ctypes.c_uint64), ("shash", ctypes.c_uint64), ("steps", ctypes.c_uint64), ("switches", ctypes.c_uint64),
                ("now_ns", ctypes.c_uint64), ("ctr", ctypes.c_uint64 * 64), ("msg", ctypes.c_char * 4096), ("rep", Rep * 64),
                ("dev", Dev * 200000)]


def load(path):
    global lib, shared
    lib = ctypes.PyDLL(path)
    lib.sim_init.restype = ctypes.c_void_p
    for n in "sim_now_ns sim_steps sim_thread_allocs sim_thread_steps sim_thread_creates sim_live_blocks sim_live_bytes sim_live_all sim_allocs sim_creates sim_ctr sim_out_writes sim_fault_fired".split():
        getattr(lib, n).restype = ctypes.c_uint64
    lib.sim_set.argtypes = [ctypes.c_char_p, ctypes.c_uint64]
    lib.sim_sites.argtypes = [ctypes.c_uint64, ctypes.c_uint64, ctypes.c_void_p, ctypes.c_uint32]
    lib.sim_fault.argtypes = [ctypes.c_uint32, ctypes.c_uint32, ctypes.c_uint64, ctypes.c_uint64, ctypes.c_int64]
    lib.sim_dev.argtypes = [ctypes.c_uint32] * 4
    shared = Shared.from_address(lib.sim_init())


class Sim:
    """Handle used by a program inside a forked child."""

    lines = None

    def __init__(self, plan):
        self.plan = plan
        lib.sim_arm()
        for k, v in plan.get("cfg", {}).items():
            if lib.sim_set(k.encode(), v & 0xFFFFFFFFFFFFFFFF):
                raise ValueError("unknown simulator setting " + k)
        for f in plan.get("faults", []):
            self.fault(*f)
        for d in sorted(plan.get("devs", [])):
            lib.sim_dev(d[0], d[1], ord(d[2]), d[3])

    def begin(self):
        lib.sim_begin()

    def end(self):
        lib.sim_end()

    def interrupts(self):
        """lets lines be counted and interrupted"""
        self.lines = Lines()
        watch_lines(self.lines)

    def base(self, kind):
        """ordinal of the next event that a fault can hit"""
        return self.lines.n if kind == F_LINE else lib.sim_allocs() if kind == F_GALLOC else lib.sim_creates()

    fired = property(lambda self: self.ctr("afail") + self.ctr("tfail") + (self.lines.fired if self.lines else 0))

    def fault(self, kind, tid, nth, count=1, arg=0):
        if kind == F_LINE:
            self.lines.at = self.lines.at | {nth}
            return -1
        return lib.sim_fault(kind, tid, nth, count, arg)

    def clear_faults(self):
        if self.lines:
            self.lines.at = frozenset()
        lib.sim_clear_faults()

    def pause(self):
        """run outside the simulation for a while (single-threaded observation)"""
        lib.sim_pause()

    def resume(self):
        lib.sim_resume()

    def drain(self):
        return lib.sim_drain()

    steps = property(lambda self: lib.sim_steps())
    now_ns = property(lambda self: lib.sim_now_ns())
    allocs = property(lambda self: lib.sim_allocs())
    creates = property(lambda self: lib.sim_creates())
    live = property(lambda self: lib.sim_live_blocks())
    live_bytes = property(lambda self: lib.sim_live_bytes())
    live_all = property(lambda self: lib.sim_live_all(0))
    live_all_bytes = property(lambda self: lib.sim_live_all(1))
    nthreads = property(lambda self: lib.sim_nthreads())
    out_writes = property(lambda self: lib.sim_out_writes())

    def sites(self, a, b, most=2000):
        """[first, last] ordinal, counted from a, of the allocations of every chain of calls"""
        buf = (ctypes.c_uint32 * (2 * most))()
        n = lib.sim_sites(a, b, buf, most)
        return [[buf[2 * i], buf[2 * i + 1]] for i in range(n)]

    def fault_here(self, nth, count=1):
        """fail an allocation of the calling thread, counted from now"""
        t = lib.sim_tid()
        return lib.sim_fault(F_ALLOC, t, lib.sim_thread_allocs(t) + nth, count, 0)

    def fault_fired(self, i):
        return lib.sim_fault_fired(i)

    def ctr(self, name):
        return lib.sim_ctr(CTR.index(name))

    def set(self, k, v):
        lib.sim_set(k.encode(), v)


def watch_lines(callback):
    """calls callback before every line of the library's Python code"""
    mon = sys.monitoring
    codes = []

    def add(c):
        if c not in codes:
            codes.append(c)
            for x in c.co_consts:
                if hasattr(x, "co_code"):
                    add(x)
    for name, mod in sorted(sys.modules.items()):
        if name == "wicked" or name.startswith("wicked."):
            for v in vars(mod).values():
                f = getattr(v, "__wrapped__", v)
                if hasattr(f, "__code__") and f.__module__ == name:
                    add(f.__code__)
                elif isinstance(v, type) and v.__module__ == name:
                    for x in vars(v).values():
                        if hasattr(x, "__code__"):
                            add(x.__code__)
    mon.use_tool_id(3, "simulator")
    mon.register_callback(3, mon.events.LINE, callback)
    for c in codes:
        mon.set_local_events(3, c, mon.events.LINE)


F_LINE = 20  # a signal (Ctrl-C) before the n-th line of the library's Python code


class Lines:
    """counts lines, and interrupts at some of them"""
    n = fired = 0
    at = frozenset()

    def __call__(self, code, line):
        k = self.n
        self.n += 1
        if k in self.at:
            self.fired += 1
            raise KeyboardInterrupt


ENVVALS = (None, "", "0", "1", "2", "8", "64", "-1", "true", "off", "yes", "full", "C", "/tmp")


class Variables(os.environ.__class__):
    """the variables of the process as the library's Python code sees them: seeded contents for whatever name it asks for"""
    def __getitem__(self, k):
        f = sys._getframe(1)
        while f is not None and f.f_globals.get("__name__") in ("os", "_collections_abc", "collections.abc"):
            f = f.f_back
        name = f.f_globals.get("__name__", "") if f is not None else ""
        if name != "wicked" and not name.startswith("wicked."):
            return super().__getitem__(k)
        v = ENVVALS[int.from_bytes(hashlib.sha256(("%d %s" % (Variables.seed, k)).encode()).digest()[:4], "little") % len(ENVVALS)]
        if v is None:
            raise KeyError(k)
        return v

    def __contains__(self, k):
        try:
            self[k]
        except KeyError:
            return False
        return True


def variables(seed):
    """other contents for all variables of the process"""
    Variables.seed = seed
    os.environ.__class__ = Variables


class Plain:
    """stands for the simulator in a run without simulation"""
    steps = now_ns = allocs = creates = live = live_bytes = live_all = live_all_bytes = nthreads = out_writes = fired = 0
    lines = Lines()

    def __getattr__(self, name):
        return lambda *a, **k: 0


class Result:
    """What one forked child did."""
    __slots__ = ("value", "exit", "signal", "timeout", "error", "stats", "reports", "devs", "hash", "shash", "msg", "status",
                 "out", "wall")

    @property
    def crashed(self):
        return self.signal is not None or (self.exit not in (0,))


def _child(fn, plan, w, cpu, simulate):
    code = 0
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        out = os.memfd_create("out")
        os.dup2(out, 1)
        err = os.memfd_create("err")
        os.dup2(err, 2)
        s = Sim(plan) if simulate else None
        value = fn(s)
        if simulate:
            lib.sim_end()
        data = {"v": value, "out": os.fstat(out).st_size + os.fstat(err).st_size}
    except BaseException:
        if simulate:
            lib.sim_end()
        data = {"error": traceback.format_exc()}
    try:
        b = json.dumps(data).encode()
        b = struct.pack("<Q", len(b)) + b
        while b:
            b = b[os.write(w, b):]
    except BaseException:
        code = 77
    os._exit(code)


def run(fn, plan=None, cpu=60, wall=240, simulate=True):
    """Run fn(sim) in a forked child and collect everything observable."""
    plan = plan or {}
    lib.sim_reset_shared()
    r, w = os.pipe()
    t0 = time.monotonic()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(fn, plan, w, cpu, simulate)
    os.close(w)
    buf = b""
    res = Result()
    res.timeout = False
    end = t0 + wall
    while True:
        left = end - time.monotonic()
        if left <= 0:
            res.timeout = True
            os.kill(pid, signal.SIGKILL)
            break
        if select.select([r], [], [], left)[0]:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    res.wall = time.monotonic() - t0
    res.signal = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
    res.exit = os.WEXITSTATUS(st) if os.WIFEXITED(st) else None
    res.value = res.error = None
    res.out = 0
    if len(buf) >= 8 and len(buf) == 8 + struct.unpack("<Q", buf[:8])[0]:
        d = json.loads(buf[8:])
        res.value, res.error, res.out = d.get("v"), d.get("error"), d.get("out", 0)
    elif res.signal is None and res.exit == 0:
        res.exit = 78
    sh = shared
    res.status = sh.status
    res.msg = sh.msg.decode(errors="replace")
    res.hash, res.shash = "%016x" % sh.hash, "%016x" % sh.shash
    res.stats = {n: sh.ctr[i] for i, n in enumerate(CTR)}
    res.stats.update(steps=sh.steps, switches=sh.switches, now_ns=sh.now_ns)
    res.reports = [dict(kind={1: "race", 2: "use-after-free", 3: "double-free", 4: "out-of-bounds"}[x.kind], t1=x.t1, t2=x.t2, w1=x.w1, w2=x.w2,
                        pc1=x.pc1, pc2=x.pc2, count=x.count) for x in sh.rep[:sh.nrep]]
    res.devs = [[d.tid, d.tstep, chr(d.kind), d.target] for d in sh.dev[:sh.ndev]] if not sh.devoverflow else None
    return res


class ReferenceCrash(Exception):
    """a plain run of the calls under test crashed"""


def twin(fn, wall=240):
    """Run fn() in an unsimulated fork of the pristine process; returns its value."""
    r = run(lambda s: fn(), simulate=False, wall=wall, cpu=200)
    if not r.error and (r.signal is not None or r.timeout or r.exit not in (0, 93, 77, 78)):
        raise ReferenceCrash("the same calls end a process without simulation: exit %s signal %s%s" % (r.exit, r.signal, ", no end in sight" if r.timeout else ""))
    if r.error or r.crashed or r.timeout:
        raise RuntimeError("oracle process failed: exit %s signal %s %s" % (r.exit, r.signal, r.error))
    return r.value


def end_kind(r):
    """How a run ended, if not normally."""
    if r.timeout or r.signal in (signal.SIGXCPU, signal.SIGKILL):
        return "hang"
    if r.exit == 91:
        return "deadlock"
    if r.exit == 92:
        return "no-progress"
    if r.exit == 93 or r.exit in (77, 78):
        return "internal"
    if r.signal is not None:
        return "crash"
    if r.exit != 0:
        return "exit"
    if r.error:
        return "error"
    return None


def cpp_api(wicked):
    """the in-place operations of the C++ interface (cppapi.cc), or None if they could not be compiled"""
    try:
        f = ctypes.PyDLL(sys.modules[wicked.Expression.__module__].__file__).pybind11_simapi
    except AttributeError:
        return None
    f.restype = ctypes.py_object
    return f()
