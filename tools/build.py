"""Content-hash based incremental parallel build of /repo's library sources and
the monitors in /verif/harness, for several configurations ("variants").

Every object is keyed by the contents of every file it was made from (its
depfile), the flags and the compiler, never by time stamps: a check must see
any change in /repo's working tree, whatever the mtimes say."""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, fcntl

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=shift-base,vptr",
       "-fno-sanitize-recover=all"]
BASE = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-w", "-pipe"]
PAT = ["-ftrivial-auto-var-init=pattern"]

# name -> flags.  up/conv/upfull mirror the three configurations of the test
# suite; convfull is the fourth combination; *_chk adds argument checking with
# status codes; tsan is for the concurrency monitor; plain is uninstrumented
# (valgrind).
VARIANTS = {
    "up":       ["-O1", "-DROUND_MODE_UP"] + SAN + PAT,
    "conv":     ["-O1", "-DROUND_MODE_CONVERGENT"] + SAN + PAT,
    "upfull":   ["-O1", "-DROUND_MODE_UP", "-DFULL_ACCU", "-DAVEPOOL_16BIT_MUL",
                 "-DMLI_DEBUG_MODE=DBG_MODE_FULL"] + SAN + PAT,
    "convfull": ["-O1", "-DROUND_MODE_CONVERGENT", "-DFULL_ACCU",
                 "-DMLI_DEBUG_MODE=DBG_MODE_FULL"] + SAN + PAT,
    "upchk":    ["-O1", "-DROUND_MODE_UP", "-DMLI_DEBUG_MODE=DBG_MODE_RET_CODES", "-DMON_CHK"] + SAN + PAT,
    "tsan":     ["-O1", "-DROUND_MODE_UP", "-fsanitize=thread"],
    "plain":    ["-O1", "-DROUND_MODE_UP"],
}


def sha(b):
    return hashlib.sha256(b).hexdigest()


_filecache = {}


def fhash(path):
    h = _filecache.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = sha(f.read())
        except OSError:
            h = "missing"
        _filecache[path] = h
    return h


def lib_layout():
    """Sources and include directories, as lib/mli_lib.cmake lists them."""
    txt = open(os.path.join(REPO, "lib/mli_lib.cmake")).read()
    txt = re.sub(r"#.*", "", txt)
    srcs, incs = [], []
    for m in re.findall(r"\$\{MLI_LIB_CMAKE_DIR\}(/[\w./*+-]*)", txt):
        p = os.path.normpath(os.path.join(REPO, "lib" + m))
        if m.endswith(".cc"):
            for g in sorted(glob.glob(p)):
                if g not in srcs:
                    srcs.append(g)
        elif os.path.isdir(p) and p not in incs and p != os.path.join(REPO, "cmake"):
            incs.append(p)
    return srcs, incs


class BuildError(Exception):
    pass


_cxxver = None


def cxxver():
    global _cxxver
    if _cxxver is None:
        _cxxver = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout.split("\n")[0]
    return _cxxver


def parse_dep(path):
    t = open(path).read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return [os.path.normpath(x) for x in t.split()]


def compile_obj(src, obj, flags, incs):
    cmd = [CXX] + BASE + flags + ["-I" + i for i in incs] + ["-c", src, "-o", obj]
    key0 = sha(json.dumps([cmd, cxxver()]).encode())
    st = obj + ".json"
    if os.path.exists(obj) and os.path.exists(st):
        try:
            rec = json.load(open(st))
            if rec["key"] == key0 and all(fhash(p) == h for p, h in rec["deps"].items()):
                return rec["sum"]
        except Exception:
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run(cmd + ["-MD", "-MF", obj + ".d"], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    deps = {p: fhash(p) for p in parse_dep(obj + ".d") if not p.startswith("/usr/")}
    h = sha(open(obj, "rb").read())
    json.dump({"key": key0, "deps": deps, "sum": h}, open(st, "w"))
    return h


def build(targets, jobs=8, quiet=True):
    """targets: list of (module, variant); returns {(module, variant): binary}."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        srcs, incs = lib_layout()
        if len(srcs) < 20:
            raise BuildError("library source list not understood")
        # also the harness's own include dir
        hinc = incs + [os.path.join(VERIF, "harness")]
        work = {}
        variants = sorted(set(v for _, v in targets))
        for v in variants:
            fl = VARIANTS[v]
            for s in srcs:
                o = os.path.join(BUILD, v, "lib", os.path.relpath(s, REPO).replace("/", "__") + ".o")
                work[o] = (s, fl, incs)
            work[os.path.join(BUILD, v, "mon.o")] = (os.path.join(VERIF, "harness/mon.cc"), fl, hinc)
        mods = {}
        for m, v in targets:
            names = ["mod_" + m]
            if m == "conc":     # all other modules, each in a namespace of its own
                names += sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(VERIF, "harness/conc_*.cc")))
            for nm in names:
                o = os.path.join(BUILD, v, nm + ".o")
                mods.setdefault((m, v), []).append(o)
                work[o] = (os.path.join(VERIF, "harness", nm + ".cc"), VARIANTS[v], hinc)
        sums = {}
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            futs = {ex.submit(compile_obj, s, o, f, i): o for o, (s, f, i) in
                    sorted(work.items(), key=lambda kv: "/lib/" in kv[0])}
            for f in concurrent.futures.as_completed(futs):
                sums[futs[f]] = f.result()
        out = {}
        for m, v in targets:
            objs = [o for o in sorted(work) if o.startswith(os.path.join(BUILD, v, "lib") + "/")]
            objs += [os.path.join(BUILD, v, "mon.o"), *mods[(m, v)]]
            exe = os.path.join(BUILD, v, "mon_" + m)
            k = sha(json.dumps([[(o, sums[o]) for o in objs], VARIANTS[v], cxxver()]).encode())
            ks = exe + ".key"
            if not (os.path.exists(exe) and os.path.exists(ks) and open(ks).read() == k):
                cmd = [CXX] + VARIANTS[v] + objs + ["-o", exe, "-lpthread"]
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode != 0:
                    raise BuildError("link failed\n" + r.stderr[-4000:])
                open(ks, "w").write(k)
            out[(m, v)] = exe
        return out
    finally:
        lock.close()


if __name__ == "__main__":
    import time
    t = time.time()
    ts = [tuple(a.split(":")) for a in sys.argv[1:]]
    for k, e in build(ts).items():
        print(k, e)
    print("%.1fs" % (time.time() - t))
