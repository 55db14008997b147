"""Content-addressed incremental build of /repo's library sources and the harnesses.

An object is identified by the hash of the compiler, the flags, and the content of the
source and of every file its last compilation read.  Only the translation units that a
harness (transitively) references are compiled; everything is taken from /repo's current
working tree.
"""
import hashlib, os, re, subprocess, json, concurrent.futures as cf, fcntl, tempfile, glob, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
OBJ = os.path.join(BUILD, "obj")
HARN = os.path.join(VERIF, "harness")
COMMON = ["-g1", "-O1", "-w", "-DDEBUG", "-fsanitize=address", "-fno-omit-frame-pointer"]
CFLAGS = COMMON + ["-DUF_long=long", "-DHAVE_CONFIG_H=1", "-std=c99"]
CXXFLAGS = COMMON + ["-std=c++11", "-DHAVE_CONFIG_H=1", "-D_GLIBCXX_SANITIZE_VECTOR"]
INC = ["-I" + os.path.join(VERIF, "tools/cfg"), "-I" + REPO, "-I/usr/include/suitesparse"]
LIBS = ["-lboost_date_time", "-lboost_filesystem", "-lboost_system", "-lumfpack", "-lamd",
        "-llapack", "-lblas", "-lm", "-lsuitesparseconfig", "-lrt", "-lpthread"]
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class BuildError(Exception):
    pass


_hash_cache = {}


def fhash(p):
    h = _hash_cache.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_cache[p] = h
    return h


_ccver = None


def ccver():
    global _ccver
    if _ccver is None:
        _ccver = subprocess.run(["g++", "--version"], capture_output=True, text=True).stdout
    return _ccver


def lib_sources():
    """Library translation units, as the project lists them."""
    with open(os.path.join(REPO, "CMakeLists_files.cmake"), encoding="latin-1") as f:
        t = re.sub(r"#.*", "", f.read())
    out = []
    for m in re.finditer(r"list\s*\(APPEND\s+MAIN_SOURCE_FILES(.*?)\)", t, re.S):
        out += m.group(1).split()
    skip = ("xmltest.cpp", "LinearSolverAGMG.cpp", "LinearSolverIstl.cpp")  # not configured here
    out = [s for s in out if not s.endswith(skip)]
    return [os.path.join(REPO, s) for s in out if os.path.exists(os.path.join(REPO, s))]


def cmd_for(src, extra=()):
    if src.endswith(".c"):
        return ["gcc"] + CFLAGS + list(extra) + INC
    return ["g++"] + CXXFLAGS + list(extra) + INC


def slot(src, extra):
    return hashlib.sha256((src + "\0" + "\0".join(extra)).encode()).hexdigest()[:24]


def write_atomic(path, data):
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(path))
    with os.fdopen(fd, "w") as f:
        f.write(data)
    os.replace(tmp, path)


def lookup(src, extra=()):
    """Object path if an up-to-date object exists, else None.  Also last-known info."""
    s = os.path.join(OBJ, slot(src, extra) + ".json")
    try:
        info = json.load(open(s))
    except (OSError, ValueError):
        return None, None
    for cand in info["versions"]:
        if cand["key"] == dep_key(src, extra, cand["deps"]) and os.path.exists(cand["obj"]):
            return cand, info["versions"][0]
    return None, info["versions"][0]


def dep_key(src, extra, deps):
    h = hashlib.sha256()
    h.update(ccver().encode())
    h.update("\0".join(cmd_for(src, extra)).encode())
    h.update(src.encode())
    for d in deps:
        h.update(d.encode() + b"\0" + fhash(d).encode())
    return h.hexdigest()


def symbols(obj):
    out = subprocess.run(["nm", obj], capture_output=True, text=True).stdout
    d, u = set(), set()
    for line in out.splitlines():
        f = line.split()
        if len(f) < 2:
            continue
        typ, name = f[-2], f[-1]
        if typ == "U":
            u.add(name)
        elif typ in "TDBRVWCGSu" or typ in "vw" and len(f) == 3:
            d.add(name)
    return sorted(d), sorted(u)


def compile_one(src, extra=()):
    cand, last = lookup(src, extra)
    if cand:
        return cand
    os.makedirs(OBJ, exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=OBJ, suffix=".o")
    os.close(fd)
    dep = tmp + ".d"
    r = subprocess.run(cmd_for(src, extra) + ["-MMD", "-MF", dep, "-c", src, "-o", tmp],
                       capture_output=True, text=True)
    if r.returncode != 0:
        for p in (tmp, dep):
            if os.path.exists(p):
                os.unlink(p)
        raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
    txt = open(dep).read().replace("\\\n", " ")
    os.unlink(dep)
    deps = [d for d in txt.split(":", 1)[1].split()]
    # system headers do not change; depend on /repo and /verif files only
    deps = sorted(set(d for d in deps if not d.startswith("/usr/")))
    key = dep_key(src, extra, deps)
    obj = os.path.join(OBJ, key[:40] + ".o")
    os.replace(tmp, obj)
    dsy, usy = symbols(obj)
    cand = {"key": key, "deps": deps, "obj": obj, "def": dsy, "undef": usy}
    s = os.path.join(OBJ, slot(src, extra) + ".json")
    vers = []
    try:
        vers = json.load(open(s))["versions"]
    except (OSError, ValueError):
        pass
    vers = [cand] + [v for v in vers if v["key"] != key]
    for v in vers[3:]:
        if v["obj"] not in [w["obj"] for w in vers[:3]] and os.path.exists(v["obj"]):
            os.unlink(v["obj"])
    write_atomic(s, json.dumps({"versions": vers[:3]}))
    return cand


def compile_many(srcs, pool):
    futs = {s: pool.submit(compile_one, s) for s in srcs}
    return {s: f.result() for s, f in futs.items()}


def build_harness(name, full=False):
    """Returns the path of the executable for harness/<name>.cpp."""
    os.makedirs(OBJ, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(name, full)
    finally:
        lock.close()


def _build(name, full):
    main = os.path.join(HARN, name + ".cpp")
    srcs = lib_sources()
    cur, hint = {}, {}
    for s in srcs:
        c, last = lookup(s)
        if c:
            cur[s] = c
        elif last:
            hint[s] = last
    with cf.ThreadPoolExecutor(JOBS) as pool:
        unknown = [s for s in srcs if s not in cur and s not in hint]
        fm = pool.submit(compile_one, main)
        if unknown or full:
            cur.update(compile_many([s for s in srcs if s not in cur] if full else unknown, pool))
        m = fm.result()
        while True:
            # closure over current objects (archive semantics)
            defs = {}
            for s in srcs:
                if s in cur:
                    for d in cur[s]["def"]:
                        defs.setdefault(d, s)
            hdefs = {}
            for s in hint:
                if s not in cur:
                    for d in hint[s]["def"]:
                        hdefs.setdefault(d, s)
            have, used, need = set(m["def"]), [], set()
            todo, seen, missing = list(m["undef"]), set(), set()
            while todo:
                u = todo.pop()
                if u in seen or u in have:
                    continue
                seen.add(u)
                if u in defs:
                    s = defs[u]
                    if s not in used:
                        used.append(s)
                        have |= set(cur[s]["def"])
                        todo += cur[s]["undef"]
                elif u in hdefs:
                    need.add(hdefs[u])
                else:
                    missing.add(u)
            if not need:
                stale = [s for s in srcs if s not in cur]
                exe, err = link(name, m, [cur[s] for s in used])
                if exe:
                    return exe
                if stale:
                    cur.update(compile_many(stale, pool))
                    continue
                raise BuildError("linking %s failed:\n%s" % (name, err))
            cur.update(compile_many(sorted(need), pool))


def link_options(name):
    """Options a harness asks for in a line `// link: ...`."""
    with open(os.path.join(HARN, name + ".cpp")) as f:
        m = re.search(r"^// link: (.*)$", f.read(), re.M)
    return m.group(1).split() if m else []


def link(name, m, objs):
    allobj = [m["obj"]] + [o["obj"] for o in objs]
    opts = link_options(name)
    h = hashlib.sha256("\0".join(allobj + opts + LIBS).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", "%s-%s" % (name, h))
    if os.path.exists(exe):
        return exe, ""
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    old = sorted(glob.glob(os.path.join(BUILD, "bin", name + "-*")), key=os.path.getmtime)
    for o in old[:-2]:
        if re.match(r".*-[0-9a-f]{24}$", o):
            os.unlink(o)
    tmp = exe + ".tmp"
    r = subprocess.run(["g++", "-fsanitize=address", "-o", tmp] + opts + allobj + LIBS,
                       capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-4000:]
    os.replace(tmp, exe)
    return exe, ""


if __name__ == "__main__":
    import sys
    t = time.time()
    for n in sys.argv[1:]:
        print(build_harness(n), "%.1fs" % (time.time() - t))
