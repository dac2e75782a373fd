"""Running the production executables in scratch directories and reading the
step logs written by the recorder plug-in."""
import concurrent.futures as cf, os, shutil, signal, struct, subprocess, threading, time
import numpy as np

ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", MPLBACKEND="Agg",
           OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
           OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_plm="isolated", OMPI_MCA_plm_rsh_agent="/bin/true",
           HDF5_USE_FILE_LOCKING="FALSE", OMPI_MCA_sharedfp="individual", PYTHONDONTWRITEBYTECODE="1")


# set by checks that repeat the workloads of other checks under other instrumentation
EXTRA = {}          # environment of every run
OBSERVE = None      # called with (command, Result) of every run
SAMPLE = None       # (random generator, share of the work items to execute)


def env(threads=1, extra=None):
    e = dict(os.environ)
    for k in ("OMP_NUM_THREADS", "LD_PRELOAD"): e.pop(k, None)
    e.update(ENV)
    e["OMP_NUM_THREADS"] = str(threads)
    e["OPENBLAS_NUM_THREADS"] = "1"
    if extra: e.update({k: str(v) for k, v in extra.items()})
    for k, v in EXTRA.items(): e[k] = v if k == "OMP_NUM_THREADS" else e.get(k, v)
    return e


class Result:
    def __init__(self, rc, out, err, timed_out, cwd, wall):
        self.rc, self.out, self.err, self.timed_out, self.cwd, self.wall = rc, out, err, timed_out, cwd, wall

    def tail(self, n=600):
        return (self.out[-n:] + "\n" + self.err[-n:]).strip()


def execute(cmd, cwd, threads=1, timeout=120, extra=None):
    os.makedirs(cwd, exist_ok=True)
    e = env(threads, extra)
    # MPI session directories stay inside the scratch directory
    tmp = os.path.join(cwd, ".tmp"); os.makedirs(tmp, exist_ok=True); e["TMPDIR"] = tmp
    t0 = time.time()
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"):
        if k in EXTRA: e[k] = EXTRA[k] + ":log_path=" + os.path.join(os.path.abspath(cwd), ".san")
    with open(os.path.join(cwd, "stdout.txt"), "wb") as fo, open(os.path.join(cwd, "stderr.txt"), "wb") as fe:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL,
                             start_new_session=True)
        to = False
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            to = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait()
    rd = lambda n: open(os.path.join(cwd, n), errors="replace").read()
    res = Result(p.returncode, rd("stdout.txt"), rd("stderr.txt"), to, cwd, time.time() - t0)
    if OBSERVE: OBSERVE(cmd, res)
    return res


def mpi(cmd, n):
    if n == 1: return cmd
    return ["mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(n)] + cmd


def pool(fn, items, workers=None):
    """Runs fn over items in threads (each starts processes); keeps order."""
    workers = workers or (os.cpu_count() or 8)
    if SAMPLE:
        items = list(items)
        items = [i for i in items if SAMPLE[0].random() < SAMPLE[1]] or items[:1]
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))


# ------------------------------------------------------------------ step logs
class Var:
    __slots__ = ("name", "n", "g", "a", "b", "full")

    def interior(self):
        gx, gy, gz = self.g
        f = self.full
        return f[gz:f.shape[0] - gz, gy:f.shape[1] - gy, gx:f.shape[2] - gx]


class Step:
    __slots__ = ("step", "time", "vars", "complete")

    def arr(self, name): return self.vars[name].interior()
    def names(self): return list(self.vars)


class Log:
    def __init__(self, path):
        self.path, self.steps, self.params, self.finished, self.truncated = path, [], {}, False, False
        b = open(path, "rb").read()
        o = 0
        if b[:4] != b"ALSR": raise ValueError("bad log " + path)
        self.rank, self.size, self.instance = struct.unpack_from("<iii", b, 4)
        o = 16
        cur = None
        try:
            while o < len(b):
                tag = b[o:o + 4]; o += 4
                if tag == b"PARA":
                    kv = []
                    for _ in range(2):
                        n, = struct.unpack_from("<i", b, o); o += 4
                        kv.append(b[o:o + n].decode(errors="replace")); o += n
                    self.params[kv[0]] = kv[1]
                elif tag == b"STEP":
                    cur = Step(); cur.step, = struct.unpack_from("<i", b, o)
                    cur.time, = struct.unpack_from("<d", b, o + 4); o += 12
                    cur.vars = {}; cur.complete = False
                elif tag == b"VARI":
                    n, = struct.unpack_from("<i", b, o); o += 4
                    v = Var(); v.name = b[o:o + n].decode(); o += n
                    q = struct.unpack_from("<6i", b, o); o += 24
                    v.n, v.g = q[:3], q[3:]
                    q = struct.unpack_from("<6d", b, o); o += 48
                    v.a, v.b = q[:3], q[3:]
                    sh = tuple(v.n[d] + 2 * v.g[d] for d in (2, 1, 0))
                    cnt = sh[0] * sh[1] * sh[2]
                    if o + 8 * cnt > len(b): raise struct.error("truncated")
                    v.full = np.frombuffer(b, "<f8", cnt, o).reshape(sh); o += 8 * cnt
                    cur.vars[v.name] = v
                elif tag == b"ENDS":
                    s, = struct.unpack_from("<i", b, o); t, = struct.unpack_from("<d", b, o + 4); o += 12
                    cur.complete = True
                    self.steps.append(cur); cur = None
                elif tag == b"FINI":
                    self.finished = True
                else:
                    raise ValueError("bad tag %r in %s" % (tag, path))
        except struct.error:
            self.truncated = True


def logs(cwd, base="rec", instance=None):
    """All logs of a run, by (world rank, instance)."""
    import re
    r = {}
    for f in sorted(os.listdir(cwd)):
        m = re.fullmatch(re.escape(base) + r"_w(\d+)_i(\d+)\.rec", f)
        if m: r[(int(m.group(1)), int(m.group(2)))] = Log(os.path.join(cwd, f))
    return r


def assemble(steps, lower, upper, dims):
    """Puts the per-rank interiors of one step together into global arrays,
    using only the grid geometry each process reports.  Returns (dict of
    arrays [z,y,x], count array of how often each cell was covered)."""
    dims = tuple(dims)
    out, cover = {}, np.zeros(dims[::-1], int)
    h = [(upper[d] - lower[d]) / dims[d] for d in range(3)]
    for i, s in enumerate(steps):
        for k, (name, v) in enumerate(s.vars.items()):
            off = [int(round((v.a[d] - lower[d]) / h[d])) if h[d] else 0 for d in range(3)]
            sl = tuple(slice(off[d], off[d] + v.n[d]) for d in (2, 1, 0))
            if name not in out: out[name] = np.full(dims[::-1], np.nan)
            out[name][sl] = v.interior()
            if k == 0: cover[sl] += 1
    return out, cover
