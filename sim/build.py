"""Builds the simulator and the instrumented extension from /repo's working tree.

The result goes to /verif/build/<key>/ where <key> is a hash of every input, so
an unchanged tree is built once.  Nothing is written to /repo.
"""
import concurrent.futures
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("WICKED_REPO", "/repo")
OUT = os.path.join(VERIF, "build")

CXX = "g++"
BASE = ["-std=gnu++20", "-g1", "-fPIC", "-DNDEBUG", "-DUSE_BOOST_1024_INT", "-D_GLIBCXX_ASSERTIONS",
        "-fvisibility=hidden", "-w", "-pthread"]
# accesses outside arrays of known size, and stack writes past an array, end the run
TSAN = ["-fsanitize=thread", "-fsanitize=bounds,integer-divide-by-zero,unreachable,return", "-fsanitize-trap=all", "-fstack-protector-all"]
WRAP = ["memcpy", "memmove", "memset", "memcmp",
        "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_",
        "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
        "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base",
        "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base",
        "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base",
        "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base"]
# allocations count as the library's when the innermost frame that is the
# library's or the binding layer's is the library's; frames of the standard
# library and boost are neutral
NEUTRAL = re.compile(r"^(_ZGV|_ZT)|^_ZZ*N?[VKRO]*(St|S[abiosd]|9__gnu_cxx|5boost|10__cxxabiv1)|^(_init|_fini|_start)")
BINDING = re.compile(r"^_ZZ*N?[VKRO]*8pybind11|^pybind11_|^PyInit_|^_ZL?\d+pybind11_init|^_ZZ?\d*export_\w*RN8pybind117module_E$")


class BuildError(Exception):
    pass


def sources():
    w = os.path.join(REPO, "wicked")
    dirs = []
    try:
        for m in re.finditer(r"^\s*aux_source_directory\(\s*(\S+)\s+\w+\s*\)", open(os.path.join(w, "CMakeLists.txt")).read(), re.M):
            dirs.append(os.path.normpath(m.group(1)))
    except OSError:
        pass
    for d in (".", "algebra", "diagrams", "helpers", "api"):
        if d not in dirs:
            dirs.append(d)
    out = []
    for d in dirs:
        p = os.path.join(w, d)
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                if f.endswith((".cc", ".cpp", ".cxx")):
                    out.append(os.path.normpath(os.path.join(p, f)))
    return sorted(set(out))


def all_inputs():
    files = []
    for root, dirs, names in os.walk(os.path.join(REPO, "wicked")):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for n in sorted(names):
            if n.endswith((".cc", ".cpp", ".cxx", ".h", ".hpp", ".hh", ".py", ".txt", ".ipp", ".inc", ".tcc")):
                files.append(os.path.join(root, n))
    return files


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd[:3]) + " ...\n" + r.stdout[-4000:])


def build_sim():
    src = os.path.join(HERE, "libsim.cc")
    d = os.path.join(OUT, "sim-" + digest([src], "v1"))
    so = os.path.join(d, "libsim.so")
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        run([CXX, "-std=gnu++20", "-O2", "-g1", "-fPIC", "-shared", "-w", "-o", so + ".tmp", src, "-ldl", "-pthread"])
        os.rename(so + ".tmp", so)
    return so


def compile_one(src, obj):
    w = os.path.join(REPO, "wicked")
    inc = ["-I" + os.path.join(HERE, "shim"), "-I" + w, "-I" + w + "/algebra", "-I" + w + "/diagrams", "-I" + w + "/fmt", "-I" + REPO,
           "-I" + sysconfig.get_paths()["include"]]
    api = os.path.basename(os.path.dirname(src)) == "api" or b"pybind11" in open(src, "rb").read()
    cmd = [CXX] + BASE + TSAN + (["-O0"] if api else ["-O1"]) + inc
    cache = os.environ.get("SIM_OBJCACHE")  # shares objects between builds of several trees (development only)
    if cache:
        heads = [f for f in all_inputs() if not f.endswith((".cc", ".cpp", ".cxx", ".py", ".txt"))]
        h = hashlib.sha256(" ".join(cmd).replace(REPO, "").encode())
        for f in [src] + heads:
            h.update(os.path.relpath(f, REPO).encode() + open(f, "rb").read())
        c = os.path.join(cache, h.hexdigest()[:24] + ".o")
        if os.path.exists(c):
            shutil.copy(c, obj)
            return
    run(cmd + ["-c", src, "-o", obj])
    if cache:
        os.makedirs(cache, exist_ok=True)
        shutil.copy(obj, c + ".%d" % os.getpid())
        os.rename(c + ".%d" % os.getpid(), c)


def compile_regex(obj):
    """the parts of std::regex that are compiled without instrumentation"""
    run([CXX] + BASE + ["-O2", "-I" + os.path.join(HERE, "shim"), "-c", os.path.join(HERE, "regex_inst.cc"), "-o", obj])


def func_table(so, out):
    """addresses of the library's own functions: lines 'start size kind'"""
    r = subprocess.run(["nm", "-S", so], stdout=subprocess.PIPE, text=True, check=True)
    own = []
    for line in r.stdout.splitlines():
        p = line.split()
        if len(p) == 4 and p[2] in "tTwWui" and not NEUTRAL.match(p[3]):
            own.append((int(p[0], 16), int(p[1], 16), 2 if BINDING.match(p[3]) else 1))
    with open(out, "w") as f:
        for x in sorted(set(own)):
            f.write("%d %d %d\n" % x)


def build_lib():
    cpp = os.path.join(HERE, "cppapi.cc")
    own = [os.path.abspath(__file__), cpp, os.path.join(HERE, "regex_inst.cc"), os.path.join(HERE, "shim", "regex")]
    key = digest(all_inputs() + own, REPO + " ".join(BASE + TSAN))
    d = os.path.join(OUT, "lib-" + key)
    if os.path.exists(os.path.join(d, "done")):
        return d
    shutil.rmtree(d, ignore_errors=True)
    pkg = os.path.join(d, "wicked")
    objd = os.path.join(d, "obj")
    os.makedirs(pkg)
    os.makedirs(objd)
    srcs = sources()
    api_first = sorted(srcs, key=lambda s: 0 if "/api/" in s else 1)  # longest jobs first
    objs = {s: os.path.join(objd, hashlib.md5(s.encode()).hexdigest()[:8] + os.path.basename(s) + ".o") for s in srcs}
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        rx = os.path.join(objd, "regex_inst.o")
        jobs = [ex.submit(compile_one, s, objs[s]) for s in api_first] + [ex.submit(compile_regex, rx)]
        driver = os.path.join(objd, "cppapi.o")
        try:  # a tree with another C++ interface is simulated through its Python interface only
            ex.submit(compile_one, cpp, driver).result()
        except BuildError as e:
            driver = None
            print("note: the C++ interface is not simulated: " + str(e)[-500:], file=sys.stderr)
        for f in jobs:
            f.result()
    order = [objs[s] for s in srcs if "/api/" not in s] + [objs[s] for s in srcs if "/api/" in s] + [driver] * bool(driver) + [rx]
    so = os.path.join(pkg, "_wicked" + sysconfig.get_config_var("EXT_SUFFIX"))
    run([CXX, "-shared", "-fPIC", "-pthread", "-Wl,-Bsymbolic", "-Wl,--unresolved-symbols=ignore-all"] +
        ["-Wl,--wrap=" + w for w in WRAP] + ["-o", so] + order)
    func_table(so, os.path.join(d, "funcs.txt"))
    for f in os.listdir(os.path.join(REPO, "wicked")):
        if f.endswith(".py"):
            shutil.copy(os.path.join(REPO, "wicked", f), pkg)
    shutil.rmtree(objd)
    open(os.path.join(d, "done"), "w").close()
    prune(d)
    return d


def prune(keep):
    """old builds go, except the most recent few"""
    ds = [os.path.join(OUT, x) for x in os.listdir(OUT) if x.startswith("lib-")]
    ds = sorted((x for x in ds if x != keep), key=os.path.getmtime)
    for x in ds[:-int(os.environ.get("SIM_KEEP", 3))]:
        shutil.rmtree(x, ignore_errors=True)


def build_locales():
    """locales with other number formats and letter cases, for the programs that switch to them; none if they cannot be made"""
    d = os.path.join(OUT, "locale")
    if not os.path.exists(os.path.join(d, "done")):
        os.makedirs(d, exist_ok=True)
        for name in ("de_DE", "tr_TR", "ps_AF"):
            subprocess.run(["localedef", "-i", name, "-f", "UTF-8", os.path.join(d, name)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        open(os.path.join(d, "done"), "w").close()


def build():
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            build_locales()
        except OSError:
            pass
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            a, b = ex.submit(build_sim), ex.submit(build_lib)
            return a.result(), b.result()


if __name__ == "__main__":
    try:
        print(*build())
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
