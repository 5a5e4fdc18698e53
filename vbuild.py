"""Builds harnesses of /verif/harness against the sources of /repo's working tree."""
import os, re, subprocess, hashlib, shutil, sys, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))
JOBS = int(os.environ.get("VF_JOBS", "8"))

GROUPS = ["Schweizer-Messer", "aslam_cv", "aslam_optimizer", "aslam_nonparametric_estimation",
          "aslam_offline_calibration", "aslam_incremental_calibration"]
# sources of a package's library that do not compile in this sandbox (as in /opt/vp/cmake)
SKIP = {"aslam_incremental_calibration": ["src/core/IncrementalEstimator.cpp", "src/core/LinearSolver.cpp",
                                          "src/algorithms/marginalize.cpp", "src/algorithms/linalg.cpp"]}
UB = "bounds,bool,enum,float-cast-overflow,integer-divide-by-zero,return,shift,signed-integer-overflow,unreachable"
VARIANTS = {
    "asan": ["clang++", ["-O1", "-fsanitize=address," + UB, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"]],
    "tsan": ["clang++", ["-O1", "-fsanitize=thread", "-g1"]],
    "plain": ["g++", ["-O1"]],
}
COMMON = ["-w", "-std=c++14", "-fPIC", "-DBOOST_TIMER_ENABLE_DEPRECATED", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS"]
LIBS = ["-lboost_system", "-lboost_filesystem", "-lboost_serialization", "-lboost_thread", "-lboost_regex",
        "-lopencv_core", "-lopencv_imgproc", "-lopencv_calib3d", "-lopencv_imgcodecs", "-lopencv_highgui", "-lopencv_features2d", "-lopencv_flann",
        "-lspqr", "-lcholmod", "-lccolamd", "-lcamd", "-lcolamd", "-lamd", "-lcxsparse", "-lsuitesparseconfig",
        "-llapack", "-lblas", "-ltbb", "-lpthread", "-lrt", "-lm"]


class BuildError(Exception):
    pass


def pkgdir(name):
    for g in GROUPS:
        d = os.path.join(REPO, g, name)
        if os.path.isdir(d):
            return d
    raise BuildError("package not found: " + name)


def words_of(text, start):
    text = re.sub(r"#[^\n]*", "", text).replace(";", "")
    text = re.sub(r"\$\{([A-Za-z_]+)\}", r"@\1@", text)
    m = re.search(start + r"([^()]*)\)", text)
    return m.group(1).split() if m else []


def sources(name):
    """The library sources of a package, from its own CMakeLists.txt."""
    d = pkgdir(name)
    text = open(os.path.join(d, "CMakeLists.txt")).read()
    var = {}
    m = re.search(r'file\(GLOB SOURCE_FILES "([^"]+)"\)', text)
    if m:
        var["SOURCE_FILES"] = [os.path.relpath(f, d) for f in sorted(glob.glob(os.path.join(d, m.group(1))))]
    if name == "aslam_cv_serialization":
        g = open(os.path.join(d, "autogen_cameras.cmake")).read()
        for mm in re.finditer(r"set\(\s*([A-Za-z_]+)([^()]*)\)", g, re.I):
            var[mm.group(1)] = mm.group(2).split()
    src = words_of(text, r"add_library\(@PROJECT_NAME@[ \t\r\n]") or words_of(text, r"add_library\(@PROJECT_NAME@_errorterms[ \t\r\n]")
    out = []
    for w in src:
        mm = re.match(r"^@([A-Za-z_]+)@$", w)
        for f in (var.get(mm.group(1), []) if mm else [w]):
            if f not in out and f not in SKIP.get(name, []) and f != "SHARED":
                out.append(f)
    return [os.path.join(d, f) for f in out]


def includes():
    inc = []
    for g in GROUPS:
        for p in sorted(os.listdir(os.path.join(REPO, g))) if os.path.isdir(os.path.join(REPO, g)) else []:
            i = os.path.join(REPO, g, p, "include")
            if os.path.isdir(i):
                inc += ["-I", i]
    inc += ["-I", os.path.join(VERIF, "harness")]
    for i in ["/usr/include/eigen3", "/usr/include/opencv4", "/usr/include/suitesparse"]:
        inc += ["-isystem", i]
    return inc


def env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.environ.get("VF_CCACHE", os.path.join(VERIF, ".cache"))
    e["CCACHE_MAXSIZE"] = "6G"
    e["CCACHE_BASEDIR"] = "/"
    e["CCACHE_NOHASHDIR"] = "1"
    e.pop("CCACHE_DISABLE", None)
    e["CCACHE_COMPILERCHECK"] = "content"
    return e


def compile_one(variant, src, extra, objdir):
    cxx, flags = VARIANTS[variant]
    o = os.path.join(objdir, hashlib.sha1((src + " " + " ".join(extra)).encode()).hexdigest()[:10] + "_" + os.path.basename(src) + ".o")
    cc = ["ccache"] if shutil.which("ccache") else []
    cmd = cc + [cxx] + flags + COMMON + ["-include", os.path.join(VERIF, "harness", "suitesparse7.h")] + list(extra) + includes() + ["-c", src, "-o", o]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env())
    return o, r.returncode, r.stdout.decode(errors="replace"), src


def build(name, harness, packages, variant="asan", extra=(), repo_files=(), libs=(), exclude=()):
    """Compiles `harness` files plus the packages' sources; returns the executable's path and build statistics."""
    t0 = time.time()
    objdir = os.path.join(BUILD, "obj-%s-%d" % (name, os.getpid()))
    os.makedirs(objdir, exist_ok=True)
    hs = [os.path.join(VERIF, "harness", h) for h in harness]
    rs = []
    for p in packages:
        rs += sources(p)
    rs += [os.path.join(REPO, f) for f in repo_files]
    rs = [s for s in rs if not any(s.endswith(x) for x in exclude)]
    jobs = [(s, tuple(extra)) for s in hs] + [(s, ()) for s in rs]
    # biggest first
    jobs.sort(key=lambda j: (j[0] not in hs, -os.path.getsize(j[0]) if os.path.exists(j[0]) else 0))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda j: compile_one(variant, j[0], j[1], objdir), jobs))
    bad = [r for r in res if r[1] != 0]
    if bad:
        shutil.rmtree(objdir, ignore_errors=True)
        raise BuildError("\n".join("%s:\n%s" % (b[3], b[2][-4000:]) for b in bad[:3]))
    exe = os.path.join(BUILD, "%s-%d" % (name, os.getpid()))
    cxx, flags = VARIANTS[variant]
    ho = [r[0] for r in res if r[3] in hs]
    ro = [r[0] for r in res if r[3] not in hs]
    cmd = [cxx] + flags + ho + ro + ["-o", exe] + LIBS + list(libs)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    shutil.rmtree(objdir, ignore_errors=True)
    if r.returncode != 0:
        raise BuildError("link: " + r.stdout.decode(errors="replace")[-4000:])
    return exe, {"translation_units": len(res), "build_s": round(time.time() - t0, 1)}


def setup(budget=1300):
    """Fills the compiler cache for every check, so that the checks only recompile what changed."""
    from checks import CHECKS
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    for pid, c in CHECKS.items():
        for part in c["parts"]:
            if "python" in part or time.time() - t0 > budget:
                continue
            try:
                exe, st = build("setup", part["harness"], part["packages"], part.get("variant", "asan"), part.get("extra", ()), part.get("repo_files", ()), part.get("libs", ()), part.get("exclude", ()))
                os.unlink(exe)
                print(pid, part["name"], st, flush=True)
            except BuildError as e:
                print(pid, part["name"], "not built:", str(e)[:300], flush=True)


if __name__ == "__main__" and sys.argv[1:] == ["setup"]:
    setup()
