"""Builds HelFEM objects and monitor drivers from /repo's working tree.

Everything lands in /verif/build (git-ignored).  Objects are cached through
ccache when it is installed (CCACHE_DIR=/verif/build/ccache); the cache key is
the preprocessed source, so a stale object can never be linked.  Without
ccache every object is simply compiled again.
"""
import concurrent.futures as cf, os, re, shutil, subprocess, sys, time, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HELFEM_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
CXX = "g++-14" if shutil.which("g++-14") else "g++"
CC = "gcc-14" if shutil.which("gcc-14") else "gcc"
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))


class BuildError(Exception):
    pass


VARIANTS = {
    # assertions on (eigen_assert, glibcxx, assert): every behavioural run is
    # at the same time a bounds monitor
    "opt": ["-O2", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
             "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-sanitize=vptr"],
    "tsan": ["-I" + os.path.join(ROOT, "shims", "tsan"), "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}
LINKFLAGS = {"opt": [], "asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"]}


def _sources_from_cmake(path, target):
    txt = open(path).read()
    m = re.search(r"add_library\(\s*" + re.escape(target) + r"\b([^)]*)\)", txt)
    if not m:
        raise BuildError("cannot find add_library(%s) in %s" % (target, path))
    d = os.path.dirname(path)
    return [os.path.join(d, w) for w in m.group(1).split() if w.endswith(".cpp")]


# translation units that cannot be built offline / are replaced by stand-ins
EXCLUDE = {"sadatom/scf.cpp", "general/atomdb_data.cpp"}


def lib_sources():
    s = _sources_from_cmake(os.path.join(REPO, "libhelfem/CMakeLists.txt"), "helfem")
    try:
        s += _sources_from_cmake(os.path.join(REPO, "libhelfemqc/CMakeLists.txt"), "helfemqc")
    except BuildError:
        pass
    c = _sources_from_cmake(os.path.join(REPO, "src/CMakeLists.txt"), "helfem-common")
    s += [f for f in c if not any(f.endswith("/" + e) for e in EXCLUDE)]
    s += _sources_from_cmake(os.path.join(REPO, "src/CMakeLists.txt"), "legendre")
    return s


def gen_dir():
    g = os.path.join(BUILD, "gen")
    os.makedirs(g, exist_ok=True)
    txt = open(os.path.join(REPO, "libhelfem/include/helfem.source.h")).read()
    txt = txt.replace("@LIBHELFEM_VERSION@", "verif")
    f = os.path.join(g, "helfem.h")
    if not os.path.exists(f) or open(f).read() != txt:
        open(f, "w").write(txt)
    return g


def pkg(flag, name, default):
    try:
        return subprocess.run(["pkg-config", flag, name], capture_output=True, text=True, check=True).stdout.split()
    except Exception:
        return default


def base_flags():
    g = gen_dir()
    hdf5 = "/usr/include/hdf5/serial"
    return ["-DHELFEM_HAVE_FLOAT128", "-DHELFEM_VERIF", "-I" + g,
            "-I" + os.path.join(ROOT, "shims"), "-I" + os.path.join(ROOT, "drivers"),
            "-I" + REPO + "/libhelfem/include", "-I" + REPO + "/libhelfemqc/include",
            "-I" + REPO + "/libhelfem/src", "-I" + REPO + "/src", "-I" + REPO + "/src/general",
            "-I" + hdf5, "-isystem", "/usr/include/eigen3", "-std=gnu++23", "-w"]


def _env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_MAXSIZE"] = "3G"
    e["CCACHE_SLOPPINESS"] = ""
    e["LC_ALL"] = "C"
    e["TMPDIR"] = os.path.join(BUILD, "tmp")
    os.makedirs(e["TMPDIR"], exist_ok=True)
    return e


def _compile(args):
    cmd, src, obj = args
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run(cmd, capture_output=True, text=True, env=_env())
    return (src, obj, r.returncode, r.stdout + r.stderr)


# slowest first, to shorten the critical path
_PRIO = ["d_atom1.cpp", "d_atom2.cpp", "d_prec.cpp", "d_radial.cpp", "d_twoe.cpp", "utils.cpp", "TwoDBasis.cpp", "RadialBasis.cpp", "diatomic/basis.cpp", "libhelfem/src/quadrature.cpp",
         "FiniteElementBasis.cpp", "diatomic/quadrature.cpp", "dftgrid.cpp", "sadatom/basis.cpp"]


def _prio(s):
    for i, p in enumerate(_PRIO):
        if s.endswith(p):
            return i
    return len(_PRIO)


def select(groups):
    """groups: subset of {'fem','general','atomic','sadatom','diatomic'} -> source list"""
    out = []
    for s in lib_sources():
        rel = os.path.relpath(s, REPO)
        if rel.startswith("libhelfem") or "/legendre/" in rel:
            g = "fem"
        elif "/general/" in rel:
            g = "general"
        elif "/atomic/" in rel:
            g = "atomic"
        elif "/sadatom/" in rel:
            g = "sadatom"
        elif "/diatomic/" in rel:
            g = "diatomic"
        else:
            g = "general"
        if g in groups or rel in groups or any(rel.endswith("/" + x) for x in groups if x.endswith(".cpp")):
            out.append(s)
    return out


def build(variant, drivers, groups, shims=(), extra_link=(), log=None, openmp=True, extra_flags=()):
    """Compile the repo groups + shims + each driver; return {driver: exe}."""
    t0 = time.time()
    ccache = ["ccache"] if shutil.which("ccache") else []
    flags = base_flags() + VARIANTS[variant] + list(extra_flags)
    if openmp:
        flags.append("-fopenmp")
    odir = os.path.join(BUILD, "obj", variant)
    jobs = []

    def add(src):
        tag = hashlib.sha1((src + " ".join(extra_flags) + str(openmp)).encode()).hexdigest()[:10]
        obj = os.path.join(odir, os.path.basename(src)[:-4] + "-" + tag + ".o")
        if not any(j[2] == obj for j in jobs):
            jobs.append((ccache + [CXX] + flags + ["-c", src, "-o", obj], src, obj))
        return obj
    lib_objs = [add(s) for s in select(groups)]
    lib_objs += [add(os.path.join(ROOT, "shims", s)) for s in shims]
    drv_objs = {d: add(os.path.join(ROOT, "drivers", d + ".cpp")) for d in drivers}
    jobs.sort(key=lambda j: _prio(j[1]) if _prio(j[1]) < len(_PRIO) or j[1].startswith(REPO) else 8)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for src, obj, rc, out in ex.map(_compile, jobs):
            if rc != 0:
                raise BuildError("compiling %s failed:\n%s" % (src, out[-4000:]))
    exes = {}
    ldir = os.path.join(BUILD, "bin", variant)
    os.makedirs(ldir, exist_ok=True)
    libs = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial"]
    if groups - {"fem"} if isinstance(groups, set) else set(groups) - {"fem"}:
        libs += pkg("--libs", "libxc", ["-lxc"]) + ["-lhdf5"]
    libs += ["-lquadmath", "-lm", "-ldl", "-lpthread"]
    # a static archive so that drivers pull in only what they use
    def link(d):
        arc = os.path.join(odir, "lib-" + hashlib.sha1(" ".join(lib_objs).encode()).hexdigest()[:10] + "-" + d + ".a")
        if os.path.exists(arc):
            os.unlink(arc)
        r = subprocess.run(["ar", "rcs", arc] + lib_objs, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("ar failed: " + r.stderr)
        exe = os.path.join(ldir, d)
        cmd = [CXX] + LINKFLAGS[variant] + (["-fopenmp"] if openmp and variant != "tsan" else []) + \
            ["-o", exe, drv_objs[d], arc] + list(extra_link) + libs
        r = subprocess.run(cmd, capture_output=True, text=True, env=_env())
        if r.returncode:
            raise BuildError("linking %s failed:\n%s" % (d, (r.stdout + r.stderr)[-4000:]))
        os.unlink(arc)
        return exe
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for d, exe in zip(drivers, ex.map(link, drivers)):
            exes[d] = exe
    if log:
        log("built %s [%s] in %.1f s (%d objects)" % (",".join(drivers), variant, time.time() - t0, len(jobs)))
    return exes


if __name__ == "__main__":
    for s in lib_sources():
        print(s)
