"""Thread count and data races: complete histories compared bit by bit over numbers of threads,
orders of execution and repetitions (a substitute OpenMP runtime permutes and delays the
threads), and whole programs under ThreadSanitizer, with that runtime and a message monitor
that shows it every ordering of OpenMP and every memory access of MPI."""
import glob, importlib, json, os, random, re, shutil, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "../lib")); sys.path.insert(0, HERE)
import numpy as np
from vf import build, cases, nc, ref, report, run, uq, zoo
import C12

TSAN = "exitcode=0:halt_on_error=0:history_size=4:report_signal_unsafe=0:report_thread_leaks=0:second_deadlock_stack=1"
RACE = re.compile(r"WARNING: ThreadSanitizer: (.*?) \(pid=\d+\)(.*?)(?=\n={18}|\Z)", re.S)
FRAME = re.compile(r"#\d+ (.*?) (\S*/(?:al[a-z]+)/(?:src|include)/\S+?:\d+)")
LIBTSAN = "/usr/lib/x86_64-linux-gnu/libtsan.so.2"


def workload(ck, rng, n, what):
    eqs = list(zoo.SCHEMES)
    L = []
    for i in range(n):
        eq = eqs[i % len(eqs)]
        nd = {} if eq.startswith("euler") else {"nd": [2, 3, 1][i // len(eqs) % 3]}
        c = zoo.draw(ck, "%s-%d" % (what, i), rng, eq=eq, steps=4, **nd)
        c.seed = ck.seed; c.boundary = rng.choice(["periodic", "neumann"])
        if what == "tsan": c.dims = {1: (rng.choice([33, 64]), 1, 1), 2: (rng.choice([10, 16]), rng.choice([14, 18]), 1), 3: (8, 8, rng.choice([7, 8]))}[c.nd]
        # every line of a three-dimensional grid opens regions of its own: few cells there
        elif c.nd == 3: c.dims = tuple(rng.choice([7, 9, 10]) for _ in range(3))
        # enough lines for every thread in part of the runs, fewer than threads in others
        elif c.nd == 2 and rng.random() < .5: c.dims = (rng.choice([12, 31]), rng.choice([29, 48]), 1)
        if i % 2 and c.nd:
            k = rng.choice([2, 2, 3, 4]); d = rng.randrange(c.nd)
            s = [1, 1, 1]; s[d] = k
            if k == 4 and c.nd > 1: s = [1, 1, 1]; s[d] = 2; s[(d + 1) % c.nd] = 2
            c.split, c.procs = tuple(s), k
            # every process keeps at least as many cells as the widest stencil
            c.dims = tuple(max(n_, 8 * s[q]) // s[q] * s[q] if q < c.nd else 1 for q, n_ in enumerate(c.dims))
        c.P = None; c.end = None
        L.append(c)
    return L


FUN = [{"name": "moment", "degree": 2, "numberOfSaves": 2, "writer": {"type": "netcdf", "basename": "mom"}},
       {"name": "bv", "degree": 1, "numberOfSaves": 2, "writer": {"type": "netcdf", "basename": "bv"}},
       {"name": "identity", "numberOfSaves": 2, "writer": {"type": "netcdf", "basename": "idn"}}]


def omp(d, ck, key):
    for f in glob.glob(os.path.join(d, "omp.*")):
        try: o = json.load(open(f))
        except ValueError: continue
        if o["threads"] > 1:
            for k in ("regions", "reordered", "barriers"): ck.count("parallel_" + k if k == "regions" else "thread_order_" + k, o[k])
            ck.count("distinct_thread_orders", o["orders"])
    for f in glob.glob(os.path.join(d, "pm.*")):
        try: o = json.load(open(f))
        except ValueError: continue
        ck.count("message_memory_blocks_shown", o["touched"]); ck.count("mpi_calls_off_the_main_thread", o["offthread"])


def bitwise(ck, b):
    rng = random.Random("C11-bit-%d" % ck.seed)
    todo = workload(ck, rng, 420 if ck.thorough else 42, "bit")
    if ck.only: todo = [c for c in todo if ck.only in c.key]
    shim = os.path.join(b, "verif/libalsgomp.so")

    def one(ic):
        i, c = ic
        r = random.Random("%s-%d" % (c.key, ck.seed))
        funs = [dict(f) for f in (FUN if c.nd < 3 else FUN[::2])] if r.random() < .4 else []
        pas = {"OMP_WAIT_POLICY": "passive"}
        V = [("one", 1, {}), ("threads%d" % (k := r.choice([2, 3, 4])), k, pas), ("repeat%d" % k, k, pas), ("threads%d" % (q := r.choice([5, 7, 8, 16] if c.nd < 3 else [5, 7])), q, pas)]
        for m in range(8 if ck.thorough else 4):
            t = r.choice([2, 3, 4, 5, 8] if c.nd < 3 else [2, 3, 4])
            V.append(("serial%d-%d" % (t, m) if m % 2 else "free%d-%d" % (t, m), t, {"LD_PRELOAD": shim, "ALSOMP_MODE": "serial" if m % 2 else "free", "ALSOMP_SEED": r.randrange(10 ** 6), "ALSOMP_US": r.choice([0, 0, 300]), "ALSOMP_OUT": "omp"}))
        out = []
        for tag, t, env in V:
            d = os.path.join(ck.scratch, "b%d-%s" % (i, tag))
            x = c.copy(); x.threads = t
            R = cases.execute(b, x, d, extra_env=dict(env, ALSREC_MAX=12), functionals=[dict(f) for f in funs])
            c.P, c.end = x.P, x.end
            if env: omp(d, ck, tag)
            out.append((tag, R.res, C12.digest(d, R.logs)))
            if not ck.keep: shutil.rmtree(d, ignore_errors=True)
        return c, out
    for c, out in run.pool(one, list(enumerate(todo)), 5):
        tag0, r0, D0 = out[0]
        if not D0: ck.count("runs_without_data"); ck.inconcl("C11:" + c.key, "no history: " + r0.tail(150)); continue
        for tag, r, D in out[1:]:
            if r0.rc == 0 and r.rc: ck.violation("%s:%s" % (c.key, tag), "ends with status %s, with one thread successfully: %s" % (r.rc, r.tail(200)), c.describe()); break
            keys = set(D) | set(D0) if r0.rc == 0 else set(D) & set(D0)
            bad = [k for k in keys if k not in D or k not in D0 or D[k].tobytes() != D0[k].tobytes()]
            ck.count("histories_compared"); ck.count("arrays_compared", len(keys))
            ck.saw("%s-%s-%s-%s-%d-%d" % (c.eq, c.recon, c.flux, re.sub(r"\d.*", "", tag), c.nd, c.procs), len(keys))
            if bad: ck.violation("%s:%s" % (c.key, tag), "%d of %d recorded arrays differ between one thread and %s, first %s" % (len(bad), len(keys), tag, sorted(bad, key=str)[0]), c.describe()); break


class Races:
    """Reads the ThreadSanitizer reports of a run; those touching the program's own code count."""
    def __init__(self, ck): self.ck, self.lock, self.where = ck, threading.Lock(), ""

    def __call__(self, cmd, res):
        with self.lock:
            self.ck.count("tsan_runs_" + self.where)
            self.ck.saw("%s:%s" % (self.where, os.path.basename(cmd[0]) if cmd[0] != "mpirun" else "mpirun-%s" % cmd[5]))
            omp(res.cwd, self.ck, self.where)
            for f in sorted(glob.glob(os.path.join(res.cwd, ".san*"))):
                for m in RACE.finditer(open(f, errors="replace").read()):
                    # only the two accesses (or locks), not where memory and threads came from
                    acc = re.split(r"\n  (?:Location|Thread |Mutex )", m.group(2))[0]
                    fr = FRAME.findall(acc)
                    if not fr: self.ck.count("reports_without_own_code"); continue
                    conf = ""
                    try: conf = open(os.path.join(res.cwd, "config.xml")).read()
                    except OSError: pass
                    places = [p.split("/")[-1] for _, p in fr]
                    self.ck.violation("race:%s" % places[0], "%s: %s" % (m.group(1), " <- ".join(places[:6])), {"command": cmd, "where": self.where, "config": conf, "report": m.group(0)[:6000]})


def races(ck, bt, watch):
    rng = random.Random("C11-tsan-%d" % ck.seed)
    todo = workload(ck, rng, 700 if ck.thorough else 56, "tsan")
    if ck.only: todo = [c for c in todo if ck.only in c.key]
    watch.where = "zoo"

    def one(ic):
        i, c = ic
        r = random.Random("%s-%d" % (c.key, ck.seed))
        c.threads = r.choice([2, 3, 4]) if c.procs > 1 else r.choice([2, 3, 4, 6])
        d = os.path.join(ck.scratch, "t%d" % i)
        env = {"ALSOMP_SEED": r.randrange(10 ** 6), "ALSOMP_US": r.choice([0, 0, 200]), "ALSPMPI_SEED": r.randrange(10 ** 6), "ALSPMPI_US": r.choice([0, 500, 3000])}
        R = cases.execute(bt, c, d, extra_env=env, timeout=200, functionals=[dict(f) for f in (FUN if c.nd < 3 else FUN[::2])] if r.random() < .3 else [])
        n = R.nsteps()
        if not ck.keep: shutil.rmtree(d, ignore_errors=True)
        return c, R.res, n
    for c, res, n in run.pool(one, list(enumerate(todo)), 5):
        ck.count("tsan_steps", n)
        ck.saw("tsan-%s-%s-%s-%d-%d" % (c.eq, c.recon, c.flux, c.nd, c.procs), n)
        if not n: ck.inconcl("C11:" + c.key, "no step under ThreadSanitizer: " + res.tail(150))


def samples(ck, bt, watch):
    """Ensembles: samples and space divided among processes, statistics collected."""
    rng = random.Random("C11-uq-%d" % ck.seed)
    watch.where = "ensembles"
    todo = []
    for i in range(120 if ck.thorough else 14):
        eq = ["burgers", "euler2", "cubic", "euler1", "linear"][i % 5]
        c = zoo.draw(ck, "tsuq-%d" % i, rng, eq=eq, kind="smooth", **({} if eq.startswith("euler") else {"nd": rng.choice([1, 2])}))
        c.seed = ck.seed; c.boundary = "periodic"; c.P = None
        c.dims = {1: (32, 1, 1), 2: (16, 16, 1)}[c.nd]
        multi, split = rng.choice([(1, (2, 1, 1)), (2, (1, 1, 1)), (2, (2, 1, 1)), (1, (1, 2, 1)) if c.nd > 1 else (1, (2, 1, 1))])
        todo.append((c, multi, split))
    if ck.only: todo = [t for t in todo if ck.only in t[0].key]

    def one(it):
        i, (c, multi, split) = it
        r = random.Random("%s-%d" % (c.key, ck.seed))
        d = os.path.join(ck.scratch, "u%d" % i)
        s = c.scheme(); c.P = cases.initial(c); U = s.eq.to_cons(c.P)
        c.end = float("%.6g" % (s.dt([max(float(np.max(s.eq.speed(U, q))), 1e-3) for q in range(c.nd)]) * 2.5))
        conf = cases.config(c, None, d)
        conf.parameters = [("a", 0.5)]
        conf.writer = {"type": "netcdf", "basename": "out", "numberOfSaves": 1}
        conf.uq = uq.tree(4, [("a", 1, "uniform", {})], [{"name": "meanvar", "numberOfSaves": 1, "writer": {"type": "netcdf", "basename": "s"}}])
        res, _ = uq.execute(bt, conf, d, multi, split, r.choice([2, 3]), 200, {"ALSOMP_SEED": r.randrange(10 ** 6), "ALSPMPI_SEED": r.randrange(10 ** 6), "ALSPMPI_US": r.choice([0, 500])})
        n = len(glob.glob(os.path.join(d, "s*.nc")))
        if not ck.keep: shutil.rmtree(d, ignore_errors=True)
        return c, res, n
    for c, res, n in run.pool(one, list(enumerate(todo)), 4):
        ck.count("tsan_statistics_written", n)
        if res.rc or not n: ck.count("tsan_ensembles_failed"); ck.inconcl("C11:" + c.key, "no statistics: " + res.tail(200))


# workloads taken over (share of their quick work): writers, functionals, initial data, statistics, samples, monitors
BORROW = [("C08", .06), ("C19", .05), ("C15", .05), ("C18", .08), ("C17", .03), ("C23", .06), ("C16", .02)]


def body(ck):
    b = build.ensure(("alsvinncli", "alsuqcli", "alsrec", "alsgomp"), "opt")
    bt = build.ensure(("alsvinncli", "alsuqcli", "alsrec", "alspmpi", "alsgomp", "alsmon", "alsio"), "tsan")
    if not ck.only or ck.only.startswith("bit"): bitwise(ck, b)
    watch = Races(ck)
    run.EXTRA.update(TSAN_OPTIONS=TSAN, ALSOMP_OUT="omp", ALSPMPI_OUT="pm",
                     LD_PRELOAD="%s:%s/verif/libalsgomp.so:%s/verif/libalspmpi.so" % (LIBTSAN, bt, bt))
    run.OBSERVE = watch
    if not ck.only or ck.only.startswith("tsan"): races(ck, bt, watch)
    if not ck.only or ck.only.startswith("tsuq"): samples(ck, bt, watch)
    run.EXTRA["OMP_NUM_THREADS"] = "3"
    os.environ["VERIF_VARIANT"] = "tsan"
    C12.borrow(ck, watch, random.Random("C11-borrow-%d" % ck.seed), BORROW, "C11")


if __name__ == "__main__":
    report.main(report.Check("C11", rule="number of (equation, reconstruction, flux, kind of schedule, dimension, number of processes) classes whose histories were compared or that ran under ThreadSanitizer, plus (workload, executable) classes; evaluations are arrays compared and steps executed under ThreadSanitizer"), body)
