"""Runs the built alsvinn programs on a small case in a scratch directory (run from the repository root)."""
import os, shutil, subprocess, sys, tempfile, atexit
import numpy as np

ROOT = os.getcwd()
ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader", OMPI_MCA_sharedfp="individual",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_plm="isolated",
           OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1", HDF5_USE_FILE_LOCKING="FALSE", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2")
SCRATCH = tempfile.mkdtemp(prefix="demo_")
atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))
n_runs = 0


def xml(tag, v):
    if isinstance(v, dict): return "<%s>%s</%s>" % (tag, "".join(xml(k, x) for k, x in v.items()), tag)
    if isinstance(v, list): return "".join(xml(tag, x) for x in v)
    if isinstance(v, (tuple,)): v = " ".join(str(x) for x in v)
    return "<%s>%s</%s>" % (tag, v, tag)


def run(script, fvm=None, uq=None, procs=1, split=None, threads=None, timeout=120, check=True, files=None, env=None, **k):
    """fvm settings are given as keywords or overridden by `fvm`; returns (directory, exit status, output)."""
    global n_runs
    n_runs += 1
    d = os.path.join(SCRATCH, "r%d" % n_runs); os.makedirs(d)
    f = dict(name="demo", platform="cpu", boundary="periodic", flux="hll3", endTime=0.1, equation="euler1", reconstruction="none",
             cfl="auto", integrator="auto", initialData={"python": "init.py"},
             writer={"type": "netcdf", "basename": "out", "numberOfSaves": 1},
             grid={"lowerCorner": (0, 0, 0), "upperCorner": (1, 1, 1), "dimension": (32, 1, 1)})
    f.update(k); f.update(fvm or {})
    f = {a: b for a, b in f.items() if b is not None}
    t = {"fvm": f}
    if uq: t["uq"] = uq
    open(os.path.join(d, "config.xml"), "w").write(xml("config", t))
    open(os.path.join(d, "init.py"), "w").write(script)
    for n, c in (files or {}).items(): open(os.path.join(d, n), "w").write(c)
    exe = "alsuqcli" if uq else "alsvinncli"
    cmd = [os.path.join(ROOT, "_build", exe, exe)]
    if split: cmd += ["--multi-x", str(split[0]), "--multi-y", str(split[1]), "--multi-z", str(split[2])]
    if uq and procs > 1: cmd += ["--multi-sample", str(procs)]
    cmd += ["config.xml"]
    if procs > 1: cmd = ["mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(procs)] + cmd
    e = dict(ENV, TMPDIR=d)
    if threads: e["OMP_NUM_THREADS"] = str(threads)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, stdin=subprocess.DEVNULL)
    if check and p.returncode != 0:
        print(p.stdout[-2000:]); print("the run ended with", p.returncode); sys.exit(1)
    return d, p.returncode, p.stdout


def read(d, f):
    """Variables of a netcdf file as [z, y, x] arrays (and time)."""
    import netCDF4
    out = {}
    with netCDF4.Dataset(os.path.join(d, f)) as ds:
        ds.set_auto_mask(False)
        for n, v in ds.variables.items():
            a = np.array(v[:])
            if set("xyz") <= set(v.dimensions):
                a = a.transpose([v.dimensions.index(q) for q in v.dimensions if q not in "xyz"] + [v.dimensions.index(q) for q in "zyx"])
            out[n] = a
    return out


def saves(d, base="out"):
    n = 0; r = []
    while os.path.exists(os.path.join(d, "%s_%d.nc" % (base, n))):
        r.append(read(d, "%s_%d.nc" % (base, n))); n += 1
    return r


def need(cond, what):
    if not cond:
        print("FAILED: " + what); sys.exit(1)
    print("ok: " + what)


def prim(v, gamma=1.4):
    """rho, [u...], p of an Euler state."""
    m = [v[k] for k in ("mx", "my", "mz") if k in v]
    return v["rho"], [q / v["rho"] for q in m], (gamma - 1) * (v["E"] - 0.5 * sum(q * q for q in m) / v["rho"])
