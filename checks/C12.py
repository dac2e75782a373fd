"""Memory safety: the workloads of the other checks and odd shapes under AddressSanitizer and
UndefinedBehaviorSanitizer (every report and every crash counts), results compared bit by bit
between runs whose fresh memory holds different bytes, and memory use over many steps and samples."""
import glob, importlib, json, os, random, re, resource, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "../lib")); sys.path.insert(0, HERE)
import numpy as np
from vf import build, cases, cfg, conform, nc, ref, report, run, uq, zoo

REPORT = re.compile(r"ERROR: AddressSanitizer|runtime error:|ERROR: LeakSanitizer|AddressSanitizer:DEADLYSIGNAL|Assertion '.*' failed|Segmentation fault|[Ss]ignal(?: code)?:? \(?11\)?|signal 11 \(|double free|malloc\(\): |free\(\): |corrupted size|munmap_chunk|stack smashing")
ASAN = "detect_leaks=0:verify_asan_link_order=0:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_init_order=1:malloc_fill_byte=203:max_malloc_fill_size=1000000000:exitcode=99:handle_abort=0:detect_odr_violation=0:new_delete_type_mismatch=1"
# workloads taken over: (check, share of its quick work executed)
BORROW = [("C22", .25), ("C25", .5), ("C04", .06), ("C03", .06), ("C05", .06), ("C16", .06), ("C09", .12), ("C08", .12), ("C19", .15),
          ("C18", .2), ("C14", .06), ("C13", .08), ("C07", .1), ("C15", .25), ("C17", .12), ("C10", .12), ("C23", .2), ("C24", .15), ("C02", .06)]


class Watch:
    def __init__(self, ck): self.ck, self.lock, self.where, self.key = ck, threading.Lock(), "", ""

    def __call__(self, cmd, res):
        text = res.err
        for f in sorted(glob.glob(os.path.join(res.cwd, ".san*"))) if res.cwd else []: text += "\n" + open(f, errors="replace").read()
        m = REPORT.search(text) or (REPORT.search(res.out) if res.rc else None)
        with self.lock:
            self.ck.count("runs_" + self.where)
            self.ck.saw("%s:%s" % (self.where, os.path.basename(cmd[0]) if cmd[0] != "mpirun" else "mpirun-%s" % cmd[5]))
            if m or res.rc in (-11, -7, -8, -4, 139, 99):
                at = m.start() if m else 0
                # the first frames in the sources identify the defect
                fr = re.findall(r"(al[a-z]+/[\w/.]+\.[ch]pp:\d+)", text[at:at + 6000])
                conf = ""
                try: conf = open(os.path.join(res.cwd, "config.xml")).read()
                except OSError: pass
                self.ck.violation("%s:%s" % (self.where, (fr or [text[at:at + 60]])[0]), "%s in %s" % (" ".join((text[at:at + 500] if m else "status %s: %s" % (res.rc, res.tail(300))).split()), " ".join(fr[:4])),
                                  {"command": cmd, "status": res.rc, "config": conf, "report": text[at:at + 5000]})


class Shadow(report.Check):
    """Runs the body of another check for its workload only."""
    def violation(self, key, message, replay=None): self.count("shadow_violations")
    def inconcl(self, key, why): pass


def borrow(ck, watch, rng, workloads=BORROW, tag="C12"):
    for name, share in workloads:
        if ck.only and not ck.only.startswith(name): continue
        m = importlib.import_module(name)
        sh = Shadow(name, rule=""); sh.only = ck.only[4:] if ck.only else None
        sh.tier, sh.thorough = "quick", False
        watch.where = name
        run.SAMPLE = (random.Random("%s-%s-%d" % (tag, name, ck.seed)), 1. if ck.only else min(1., share * (8 if ck.thorough else 1)))
        t0 = time.time()
        out = sys.stdout; sys.stdout = open(os.devnull, "w")
        try: m.body(sh)
        except Exception as e: ck.count("aborted_workloads"); ck.counters.setdefault("aborted", []).append("%s: %s" % (name, str(e)[:100]))
        finally: sys.stdout.close(); sys.stdout = out
        run.SAMPLE = None
        ck.count("seconds_" + name, round(time.time() - t0))
        ck.count("oracle_evaluations_of_workloads", sh.evals)
        ck.count("deviations_seen_by_workload_monitors", len(sh.violations) + sh.counters.get("shadow_violations", 0))
        shutil.rmtree(sh.scratch, ignore_errors=True)


def odd(ck, rng, n):
    """Shapes around the stencil width, thin slices, more processes than comfortable."""
    L = []
    for i in range(n):
        c = zoo.draw(ck, "odd-%d" % i, rng, steps=3)
        c.dims = tuple(rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 13]) if d < c.nd else 1 for d in range(3))
        if i % 4 == 0: c.dims = tuple(rng.choice([2, 3, 4]) if d < c.nd else 1 for d in range(3))
        if i % 4 == 1: c.dims = tuple([rng.choice([40, 61]), 2, 2][d] if d < c.nd else 1 for d in range(3))
        c.boundary = rng.choice(["periodic", "neumann"]); c.threads = rng.choice([1, 3])
        if rng.random() < .25 and c.nd == int(c.eq[5]) if c.eq.startswith("euler") else rng.random() < .25:
            c.split = tuple(rng.choice([q for q in (1, 2, 3) if c.dims[d] % q == 0]) if d < c.nd else 1 for d in range(3))
            c.procs = int(np.prod(c.split))
            if c.procs > 6: c.split, c.procs = (1, 1, 1), 1
        c.seed = ck.seed; c.end = 1e-3 * min(c.h); c.P = None
        # initial data for the equation even when a direction has one cell only
        e = ref.equation(c.eq, c.gamma, int(c.eq[5]) if c.eq.startswith("euler") else c.nd)
        r = c.rng(); q = c.dims[::-1]
        c.P = r.uniform(.4, .9, (1,) + q) if not c.eq.startswith("euler") else np.concatenate([r.uniform(.5, 2, (1,) + q), r.uniform(-.5, .5, (e.nd,) + q), r.uniform(.5, 2, (1,) + q)])
        c.e = e
        L.append(c)
    return L


def execute_odd(b, c, d):
    rec = os.path.join(b, "verif/libalsrec.so")
    script = cases.TABLE.format(args=", ".join(c.e.prim), path=os.path.join(d, "init.npy"), lo=list(c.lower), up=list(c.upper), n=list(c.dims))
    os.makedirs(d, exist_ok=True); np.save(os.path.join(d, "init.npy"), np.ascontiguousarray(c.P.transpose(0, 3, 2, 1)))
    conf = cfg.Config(name="run", boundary=c.boundary, flux=c.flux, equation=c.eq, reconstruction=c.recon, cfl=c.cfl, integrator=c.integ, gamma=c.gamma, endTime=c.end,
                      lower=c.lower, upper=c.upper, dim=c.dims, script=script, diffusion=c.diff, writer=cfg.recorder(rec))
    conf.write(d)
    cmd = [os.path.join(b, "alsvinncli/alsvinncli"), "config.xml"]
    for f, s in zip(("--multi-x", "--multi-y", "--multi-z"), c.split): cmd += [f, str(s)]
    return run.execute(run.mpi(cmd, c.procs), d, c.threads, 120, {"ALSREC_MAX": 12})


def digest(d, logs):
    """Everything a run produced: recorded interiors, times, and data of the output files."""
    D = {}
    for k, l in logs.items():
        for i, s in enumerate(l.steps):
            D[("t",) + k + (i,)] = np.array([s.time])
            for n, v in s.vars.items(): D[("s",) + k + (i, n)] = v.interior().copy()
    for f in sorted(glob.glob(os.path.join(d, "*.nc"))):
        for n, a in nc.read(f)[0].items(): D[("f", os.path.basename(f), n)] = np.asarray(a)
    return D


def fills(ck, bo, bs):
    """The same run with fresh memory filled by different bytes: results must not change by a bit."""
    rng = random.Random("C12-fill-%d" % ck.seed)
    todo = []
    for i in range(400 if ck.thorough else 48):
        c = zoo.draw(ck, "fill-%d" % i, rng, steps=4)
        c.seed = ck.seed; c.boundary = rng.choice(["periodic", "neumann"])
        if i % 3 == 0:
            c.split = (2, 1, 1); c.dims = (c.dims[0] + c.dims[0] % 2,) + c.dims[1:]; c.procs = 2
            if c.dims[0] < 16: c.dims = (16,) + c.dims[1:]
        c.P = None; c.end = None
        c.fun = []
        if rng.random() < .7 and c.nd < 3:
            k = rng.choice(["identity", "moment", "bv"] + (["structure_base", "structure_cube"] if c.procs == 1 else []))
            c.fun = [dict({"name": k, "numberOfSaves": 2, "writer": {"type": "netcdf", "basename": "fun"}}, **({"degree": rng.choice([1, 2])} if k in ("bv", "moment") else
                     {"direction": 0, "p": 1, "numberOfH": 3} if k == "structure_base" else {"p": 2, "numberOfH": 2} if k == "structure_cube" else {}))]
        todo.append(c)
    if ck.only: todo = [c for c in todo if ck.only in c.key]

    def one(ic):
        i, c = ic
        out = []
        for tag, b, env in (("plain", bo, {"MALLOC_PERTURB_": "0"}), ("fill-a5", bo, {"MALLOC_PERTURB_": "90"}), ("fill-3f", bo, {"MALLOC_PERTURB_": "192"}), ("sanitizer", bs, {})):
            d = os.path.join(ck.scratch, "f%d-%s" % (i, tag))
            x = c.copy(); x.P = None if c.P is None else c.P
            R = cases.execute(b, x, d, extra_env=dict(env, ALSREC_MAX=12), functionals=c.fun)
            c.P, c.end = x.P, x.end
            out.append((tag, R.res, digest(d, R.logs)))
            shutil.rmtree(d, ignore_errors=True)
        return c, out
    for c, out in run.pool(one, list(enumerate(todo))):
        tag0, r0, D0 = out[0]
        for tag, r, D in out[1:]:
            if (r.rc == 0) != (r0.rc == 0): ck.violation("%s:%s" % (c.key, tag), "status %s, %s with other bytes in fresh memory: %s" % (r.rc, r0.rc, r.tail(200)), c.describe()); break
            keys = set(D) & set(D0) if r.rc else set(D) | set(D0)
            bad = [k for k in keys if k not in D or k not in D0 or D[k].tobytes() != D0[k].tobytes()]
            ck.count("fill_arrays", len(keys)); ck.saw("fill-%s-%s" % (c.eq, tag), len(keys))
            if bad: ck.violation("%s:%s" % (c.key, tag), "%d of %d results differ between runs whose fresh memory held different bytes, first %s" % (len(bad), len(keys), sorted(bad, key=str)[0],), c.describe()); break
        if not D0: ck.count("fill_runs_without_data")
        ck.count("fill_comparisons", len(out) - 1)


def peak(cmd, cwd, env):
    """Peak resident memory (MB) of one process."""
    with open(os.path.join(cwd, "o.txt"), "wb") as o:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=o, stderr=o, stdin=subprocess.DEVNULL)
        _, st, ru = os.wait4(p.pid, 0)
    p.returncode = st
    return st, ru.ru_maxrss / 1024.


def growth(ck, bo):
    """Memory after many steps or samples against few."""
    rng = random.Random("C12-growth-%d" % ck.seed)
    jobs = []
    for i in range(16 if ck.thorough else 6):
        e = ["euler2", "euler1", "burgers", "euler2", "cubic", "euler3"][i % 6]
        nd = 2 if not e.startswith("euler") else int(e[5])
        c = zoo.draw(ck, "growth-%d" % i, rng, eq=e, kind="smooth", **({} if e.startswith("euler") else {"nd": nd}))
        c.dims = {1: (40000, 1, 1), 2: (200, 200, 1) if e.startswith("euler") else (320, 320, 1), 3: (30, 30, 30)}[nd]; c.P = None; c.seed = ck.seed; c.cfl = .1
        jobs.append((c, "steps"))
    for i in range(8 if ck.thorough else 3):
        c = zoo.draw(ck, "samples-%d" % i, rng, eq="burgers", nd=2, kind="smooth"); c.dims = (300, 300, 1); c.P = None; c.seed = ck.seed; c.cfl = .1
        jobs.append((c, "samples"))
    if ck.only: jobs = [j for j in jobs if ck.only in j[0].key]
    if ck.only and not jobs: return

    def one(ij):
        i, (c, what) = ij
        out = []
        c.P = cases.initial(c)
        for many in (False, True):
            d = os.path.join(ck.scratch, "g%d-%d" % (i, many)); os.makedirs(d)
            s = c.scheme(); U = s.eq.to_cons(c.P)
            dt = s.dt([max(float(np.max(s.eq.speed(U, q))), 1e-3) for q in range(c.nd)])
            if what == "steps":
                c.end = float("%.6g" % (dt * (60 if many else 5)))
                conf = cases.config(c, None, d)
                conf.writer = {"type": "netcdf", "basename": "out", "numberOfSaves": 1}
                conf.functionals = [{"name": "moment", "degree": 1, "numberOfSaves": 24 if many else 4, "writer": {"type": "netcdf", "basename": "fun"}},
                                    {"name": "bv", "degree": 1, "numberOfSaves": 24 if many else 4, "writer": {"type": "netcdf", "basename": "bv"}}] if c.nd < 3 else []
                conf.write(d); cmd = [os.path.join(bo, "alsvinncli/alsvinncli"), "config.xml"]
            else:
                c.end = float("%.6g" % (dt * 2.5))
                conf = cases.config(c, None, d); conf.writer = None; conf.parameters = [("a", 0.5)]  # names the scripts may use
                conf.uq = uq.tree(44 if many else 4, [("a", 1, "uniform", {})], [{"name": "meanvar", "numberOfSaves": 1, "writer": {"type": "netcdf", "basename": "s"}}])
                conf.write(d); cmd = [os.path.join(bo, "alsuqcli/alsuqcli"), "config.xml", "--multi-sample", "1"]
            env = run.env(1); env["TMPDIR"] = d
            out.append(peak(cmd, d, env))
            shutil.rmtree(d, ignore_errors=True)
        return c, what, out
    for c, what, out in run.pool(one, list(enumerate(jobs)), 4):
        if any(o[0] for o in out): ck.count("growth_runs_failed"); ck.counters.setdefault("growth_failed", []).append(c.key); continue
        one_volume = np.prod([n + 6 if n > 1 else 1 for n in c.dims]) * 8 / 2 ** 20 * (ref.equation(c.eq, c.gamma, c.nd).nv)
        more = out[1][1] - out[0][1]
        ck.saw("growth-" + what + c.eq); ck.count("growth_" + what)
        ck.sample({"growth": what, "case": c.describe(), "peaks_MB": [o[1] for o in out], "volume_MB": one_volume})
        # an array lost per step or sample would cost 40 or more of them
        if more > 3 * one_volume + 4: ck.violation(c.key, "peak memory grows from %.1f MB to %.1f MB with more %s (one solution array: %.2f MB)" % (out[0][1], out[1][1], what, one_volume), c.describe())


def body(ck):
    bo = build.ensure(("alsvinncli", "alsuqcli", "alsrec", "alsmon"), "opt")
    bs = build.ensure(("alsvinncli", "alsuqcli", "alsrec", "alsmon", "alspmpi", "alsio"), "asan")
    rng = random.Random("C12-%d" % ck.seed)
    # plain build: memory contents and memory use
    if not ck.only or "growth" in ck.only or "samples" in ck.only: growth(ck, bo)
    watch = Watch(ck)
    run.EXTRA.update(ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99", PYTHONMALLOC="malloc")
    os.environ["VERIF_VARIANT"] = "asan"
    run.OBSERVE = watch
    watch.where = "fill"
    fills(ck, bo, bs)
    watch.where = "odd"
    O = odd(ck, rng, 700 if ck.thorough else 70)
    if ck.only: O = [c for c in O if ck.only in c.key]

    def one(ic):
        i, c = ic
        d = os.path.join(ck.scratch, "o%d" % i)
        res = execute_odd(bs, c, d)
        shutil.rmtree(d, ignore_errors=True)
        return c, res
    for c, res in run.pool(one, list(enumerate(O))):
        ck.count("odd_completed" if res.rc == 0 else "odd_refused")
        if res.timed_out: ck.violation(c.key, "did not end within 120 s: " + res.tail(200), c.describe())
        elif res.rc and not (res.out + res.err).strip(): ck.violation(c.key, "ended with %s without a word" % res.rc, c.describe())
    borrow(ck, watch, rng)


if __name__ == "__main__":
    report.main(report.Check("C12", rule="number of (workload, executable, number of processes) and (equation, memory filling) classes executed under the sanitizers or compared; evaluations are runs observed and arrays compared"), body)
