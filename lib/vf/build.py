"""Builds /repo's current working tree plus /verif/harness out of tree, in
/verif/build/<variant> (git-ignored).  Ninja decides what is stale; the list of
source files is compared so that added and removed files re-run cmake.

Unity builds and -O1 are build-time savings only: if a unity build fails to
compile (clashing names after an edit of /repo), a plain build is made."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = str(os.cpu_count() or 8)
ENV = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPPFLAGS")}
ENV.update(CC="gcc", CXX="g++")

BASE = ["-G", "Ninja", "-Wno-dev", "-Wno-deprecated", "-DCMAKE_BUILD_TYPE=Release",
        "-DALSVINN_PYTHON_VERSION=3.12", "-DALSVINN_USE_CUDA=OFF", "-DALSVINN_USE_MPI=ON",
        "-DALSVINN_BUILD_FBM=OFF", "-DALSVINN_BUILD_QMC=OFF", "-DALSVINN_BUILD_DOXYGEN=OFF",
        "-DHDF5_PREFER_PARALLEL=ON", "-DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON",
        "-DALSVINN_BUILD_TESTS=OFF",
        "-DCMAKE_PROJECT_alsvinn_INCLUDE=" + os.path.join(VERIF, "cmake/project_include.cmake"),
        "-DVERIF_HARNESS_DIR=" + os.path.join(VERIF, "harness")]
VARIANTS = {
    "opt": ["-DCMAKE_CXX_FLAGS_RELEASE=-O1 -DNDEBUG"],
    "asan": ["-DCMAKE_CXX_FLAGS_RELEASE=-O1 -g1 -DNDEBUG -fno-omit-frame-pointer "
             "-D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern "
             "-fsanitize=address,undefined -fno-sanitize-recover=undefined",
             "-DCMAKE_C_FLAGS_RELEASE=-O1 -g1 -fsanitize=address",
             "-DVERIF_SAN=asan"],
    "tsan": ["-DCMAKE_CXX_FLAGS_RELEASE=-O1 -g1 -DNDEBUG -fno-omit-frame-pointer -fsanitize=thread",
             "-DCMAKE_C_FLAGS_RELEASE=-O1 -g1 -fsanitize=thread",
             "-DVERIF_SAN=tsan"],
}


class BuildError(Exception):
    pass


def _run(cmd, log):
    with open(log, "ab") as f:
        f.write((" ".join(cmd) + "\n").encode()); f.flush()
        return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT,
                              env=ENV).returncode


def _listing():
    h = hashlib.sha256()
    for top in (REPO, os.path.join(VERIF, "harness"), os.path.join(VERIF, "cmake")):
        for d, ds, fs in sorted(os.walk(top)):
            ds[:] = sorted(x for x in ds if x not in (".git", "_build", "build", "__pycache__"))
            for f in sorted(fs):
                if f.endswith((".cpp", ".hpp", ".h", ".c", ".cmake", ".in")) or f == "CMakeLists.txt":
                    h.update(os.path.join(d, f).encode() + b"\n")
    return h.hexdigest()


def ensure(targets=("alsvinncli", "alsuqcli", "alsrec"), variant=None):
    """Builds the targets; returns the build directory."""
    variant = variant or os.environ.get("VERIF_VARIANT", "opt")
    bdir = os.path.join(BUILD, variant)
    os.makedirs(bdir, exist_ok=True)
    log = os.path.join(bdir, "verif_build.log")
    t0 = time.time()
    with open(os.path.join(bdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        open(log, "w").close()
        stamp, now = os.path.join(bdir, "verif.stamp"), _listing() + repr(VARIANTS[variant] + BASE)
        old = open(stamp).read() if os.path.exists(stamp) else None

        def configure(unity):
            c = ["cmake", "-S", REPO, "-B", bdir] + BASE + VARIANTS[variant]
            c += ["-DCMAKE_UNITY_BUILD=" + ("ON" if unity else "OFF"), "-DCMAKE_UNITY_BUILD_BATCH_SIZE=6"]
            if _run(c, log):
                raise BuildError("cmake failed, see " + log)
        if old != now:
            if os.path.exists(stamp): os.remove(stamp)
            configure(True)
        if _run(["ninja", "-C", bdir, "-j", JOBS] + list(targets), log):
            configure(False)
            if _run(["ninja", "-C", bdir, "-j", JOBS] + list(targets), log):
                sys.stderr.write(open(log, errors="replace").read()[-4000:])
                raise BuildError("build failed, see " + log)
        with open(stamp, "w") as f: f.write(now)
    print("built %s [%s] in %.0f s" % (",".join(targets), variant, time.time() - t0), flush=True)
    return bdir
