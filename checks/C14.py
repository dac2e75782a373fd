"""Faults: valid configurations must succeed with everything requested on disk; the same
configuration with one fault (an unknown or missing element, an unusable value, a missing
file, a failing script, an impossible parallel split, an unwritable output, the k-th
write or open of an output file failing) must end with a failure, an explanation and
without a completed-run report."""
import copy, glob, os, random, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import xml.etree.ElementTree as ET
import numpy as np
from vf import build, cases, cfg, nc, ref, report, run, uq, zoo

SPLITS = {1: [(2, 1, 1), (3, 1, 1)], 2: [(2, 1, 1), (1, 2, 1), (2, 2, 1)], 3: [(2, 1, 1), (1, 1, 2), (1, 2, 2)]}
HOOK = '''
class Hook(object):
    def __init__(self, parameters):
        BOOM0
        self.n = 0
    def write(self, conserved, grid, time, steps):
        self.n += 1
        BOOM1
        open("hook_%d.txt" % self.n, "w").write("x")
    def afterMPISync(self):
        BOOM2
    def finalize(self):
        BOOM3
'''

ANY = ("told to fail", "ZeroDivisionError", "AttributeError", "KeyError", "NameError")
PYERR = {"script-syntax": ("SyntaxError", "never closed", "invalid syntax"), "script-raises": ("told to fail",), "script-undefined": ("undefined_name",), "script-late": ("ZeroDivisionError",), "script-import": ("no_such_module",),
         "hook-class": ("Hok",), "hook-syntax": ("SyntaxError", "unmatched"), "hook-constructor": ANY, "hook-write": ANY, "hook-sync": ANY, "hook-finalize": ANY, "hook-second-write": ("told to fail",)}


class State:
    """A run to be: the configuration tree, files beside it, command line and environment."""

    def __init__(self, root, files, exe, args, np_):
        self.root, self.files, self.exe, self.args, self.np = root, files, exe, list(args), np_
        self.env, self.text, self.prepare = {}, None, None

    def copy(self):
        s = State(copy.deepcopy(self.root), dict(self.files), self.exe, self.args, self.np)
        s.env = dict(self.env); return s

    def go(self, b, d, timeout=90):
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for f, t in self.files.items():
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            if isinstance(t, bytes): open(os.path.join(d, f), "wb").write(t)
            else: open(os.path.join(d, f), "w").write(t)
        x = self.text if self.text is not None else ET.tostring(self.root, "unicode")
        if x is not False: open(os.path.join(d, "config.xml"), "w").write(x)
        if self.prepare: self.prepare(d)
        return run.execute(run.mpi([os.path.join(b, "%s/%s" % (self.exe, self.exe))] + self.args, self.np), d, 1, timeout, self.env)


def drop(path):
    def f(s):
        p = s.root.find(path.rsplit("/", 1)[0]) if "/" in path else s.root
        for e in p.findall(path.rsplit("/", 1)[-1]): p.remove(e)
    return f


def put(path, value):
    def f(s): s.root.find(path).text = value
    return f


def add(path, tag, value="1"):
    def f(s): ET.SubElement(s.root.find(path), tag).text = value
    return f


def script(name, change):
    def f(s): s.files[name] = change(s.files[name])
    return f


def faults(s, rng, eq, nd, writer, funcs, rec):
    """(name, function changing a copy of s) for every fault that applies to s."""
    has = lambda p: s.root.find(p) is not None
    euler = eq.startswith("euler")
    out = []
    o = lambda n, f: out.append((n, f))
    near = lambda v: rng.choice([v + "x", v + "_", "un" + v, "unknown", "", "none2", v + " " + v])
    for q in ("platform", "boundary", "flux", "equation", "reconstruction", "integrator", "diffusion/name", "diffusion/reconstruction"):
        p = "fvm/" + q
        if has(p) and not (q == "diffusion/reconstruction" and s.root.find("fvm/diffusion/name").text == "none"):
            o("unknown-" + q, put(p, near(s.root.find(p).text)))
    o("cuda", put("fvm/platform", "cuda"))
    o("flux-of-another-equation", put("fvm/flux", rng.choice(["godunov", "roe", "upwind"] if euler else ["hll", "hll3"])))
    o("recon-unsupported", put("fvm/reconstruction", rng.choice(["weno5", "eno5", "eno1", "weno4", "minmod"])))
    o("integrator-unsupported", put("fvm/integrator", rng.choice(["rungekutta5", "rk2", "euler", "rungekutta"])))
    o("boundary-unsupported", put("fvm/boundary", rng.choice(["dirichlet", "reflecting", "Periodic"])))
    if not euler: o("recon-not-for-equation", put("fvm/reconstruction", "wenof2"))
    if eq in ("linear", "cubic", "buckleyleverett"):
        def diff(s):
            for e in s.root.findall("fvm/diffusion"): s.root.find("fvm").remove(e)
            e = ET.SubElement(s.root.find("fvm"), "diffusion"); ET.SubElement(e, "name").text = "tecnoscalar"; ET.SubElement(e, "reconstruction").text = "eno3"
        o("diffusion-unsupported", diff)
    for q in ("name", "platform", "boundary", "flux", "endTime", "equation", "reconstruction", "cfl", "integrator", "initialData", "grid",
              "grid/lowerCorner", "grid/upperCorner", "grid/dimension", "initialData/python", "writer/type", "writer/basename", "diffusion/name", "diffusion/reconstruction"):
        if has("fvm/" + q): o("missing-" + q, drop("fvm/" + q))
    for q in ("fvm", ): o("missing-" + q, drop(q))
    o("unknown-option", add("fvm", rng.choice(["CFL", "endtime", "writers", "functional", "numberOfSaves", "grids", "diffusions", "uq", "parameters"])))
    for q in ("cfl", "endTime"): o("number-" + q, put("fvm/" + q, rng.choice(["x", "fast", "", "1.2.3", "0.1 0.2"] if q != "cfl" else ["x", "Auto", "", "1.2.3"])))
    for q in ("lowerCorner", "upperCorner", "dimension"):
        t = s.root.find("fvm/grid/" + q).text.split()
        o("vector-" + q, put("fvm/grid/" + q, rng.choice([" ".join(t[:2]), t[0], "", "a b c", " ".join(t[:2] + ["x"]), ",".join(t)])))
    if euler: o("number-gamma", lambda s: put("fvm/equationParameters/gamma", "air")(s) if s.root.find("fvm/equationParameters") is not None else ET.SubElement(ET.SubElement(s.root.find("fvm"), "equationParameters"), "gamma").__setattr__("text", "air"))
    if has("fvm/writer/numberOfSaves"): o("number-saves", put("fvm/writer/numberOfSaves", "two"))
    # files
    o("no-config", lambda s: setattr(s, "text", False))
    o("other-config", lambda s: s.args.__setitem__(0, "confg.xml"))
    full = ET.tostring(s.root, "unicode")
    o("cut-config", lambda s: setattr(s, "text", full[:rng.randrange(len(full) // 4, len(full) - 9)]))
    o("no-root", lambda s: setattr(s, "text", full.replace("<config>", "<setup>").replace("</config>", "</setup>")))
    o("empty-config", lambda s: setattr(s, "text", ""))
    o("no-script", lambda s: s.files.pop("init.py"))
    o("other-script", put("fvm/initialData/python", "initial.py"))
    # scripts
    o("script-syntax", script("init.py", lambda t: t + "\nthis is not python (\n"))
    o("script-raises", script("init.py", lambda t: t.replace("):\n", "):\n    raise ValueError('told to fail')\n", 1)))
    o("script-undefined", script("init.py", lambda t: t.replace("):\n", "):\n    q = undefined_name\n", 1)))
    o("script-late", script("init.py", lambda t: t.replace("):\n", "):\n    1/0\n", 1)))
    o("script-import", script("init.py", lambda t: "import no_such_module\n" + t))
    if has("fvm/initialData/parameters"):
        o("parameter-number", put("fvm/initialData/parameters/parameter/value", "much"))
        o("parameter-name", drop("fvm/initialData/parameters/parameter/name"))
        o("parameter-length", drop("fvm/initialData/parameters/parameter/length"))
        o("parameter-twice", lambda s: s.root.find("fvm/initialData/parameters").append(copy.deepcopy(s.root.find("fvm/initialData/parameters/parameter"))))
    # writers
    o("unknown-writer", put("fvm/writer/type", near(writer)))
    o("hdf5-without-support", put("fvm/writer/type", "hdf5"))
    if writer == "netcdf":
        o("no-directory", put("fvm/writer/basename", "missing/out"))
        o("directory-in-the-way", lambda s: setattr(s, "prepare", lambda d: os.makedirs(os.path.join(d, "out_%d.nc" % rng.choice([0, 1])))))
        o("file-as-directory", put("fvm/writer/basename", "init.py/out"))
    if writer == "python":
        o("hook-file", lambda s: s.files.pop("hook.py"))
        o("hook-class", put("fvm/writer/pythonClass", "Hok"))
        o("hook-no-class", drop("fvm/writer/pythonClass"))
        o("hook-no-code", drop("fvm/writer/pythonCode"))
        o("hook-syntax", script("hook.py", lambda t: t + "\n)\n"))
        for k, why in enumerate(("constructor", "write", "sync", "finalize")):
            o("hook-" + why, script("hook.py", lambda t, k=k: t.replace("BOOM%d" % k, rng.choice(["raise RuntimeError('told to fail')", "1/0", "parameters.nothing.such", "raise KeyError(3)"]))))
        o("hook-second-write", script("hook.py", lambda t: t.replace("BOOM1", "assert self.n < 2, 'told to fail'")))
    if writer == "dll":
        o("dll-missing", put("fvm/writer/library", rec + "x.so"))
        o("dll-not-a-library", lambda s: (put("fvm/writer/library", "./init.py")(s)))
        for q in ("create_function", "write_function", "delete_function", "make_parameters_function", "needs_data_on_host_function", "new_timestep_function"):
            if has("fvm/writer/" + q):
                o("dll-" + q, put("fvm/writer/" + q, "rec_no_such_symbol"))
        o("dll-unnamed-function", drop("fvm/writer/write_function"))
    if funcs:
        p = "fvm/functionals/functional/"
        o("unknown-functional", put(p + "name", near(s.root.find(p + "name").text)))
        o("functional-name", drop(p + "name"))
        o("functional-writer", drop(p + "writer"))
        o("functional-writer-type", put(p + "writer/type", "netcdf4"))
        o("functional-basename", drop(p + "writer/basename"))
        o("functional-schedule", lambda s: [s.root.find(p[:-1]).remove(e) for t in ("numberOfSaves", "time") for e in s.root.findall(p + t)])
        if has(p + "timeRadius"): o("functional-radius", drop(p + "timeRadius"))
        o("functional-directory", put(p + "writer/basename", "nowhere/f"))
    # parallel layout
    o("too-many-wanted", lambda s: s.args.extend(["--multi-x", str(max(2, s.np + 1))]) if s.np == 1 else setattr(s, "np", s.np + 1))
    if s.np == 1: o("too-many-given", lambda s: setattr(s, "np", 2))
    o("option", lambda s: s.args.append("--no-such-option"))
    o("option-number", lambda s: s.args.extend(["--multi-z", "many"]) if "--multi-z" not in s.args else s.args.__setitem__(s.args.index("--multi-z") + 1, "many"))
    o("zero-processes", lambda s: s.args.extend(["--multi-z", "0"]) if "--multi-z" not in s.args else s.args.__setitem__(s.args.index("--multi-z") + 1, "0"))
    o("no-input", lambda s: s.args.__delitem__(0))

    def indivisible(s):
        n = [int(x) for x in s.root.find("fvm/grid/dimension").text.split()]
        n[0] = 25; s.root.find("fvm/grid/dimension").text = "%d %d %d" % tuple(n)
        for k in ("--multi-x", "--multi-y", "--multi-z", "--multi-sample"):
            while k in s.args: i = s.args.index(k); del s.args[i:i + 2]
        s.args += ["--multi-x", "2"]; s.np = 2
    o("indivisible-grid", indivisible)
    return out


def uqfaults(s, rng):
    out = []
    o = lambda n, f: out.append((n, f))
    for q in ("samples", "generator", "parameters", "stats", "parameters/parameter/name", "parameters/parameter/length", "parameters/parameter/type",
              "stats/stat/name", "stats/stat/writer", "stats/stat/writer/type", "stats/stat/writer/basename"):
        o("missing-uq-" + q, drop("uq/" + q))
    o("missing-uq", drop("uq"))
    o("unknown-generator", put("uq/generator", rng.choice(["mersenne", "sobol2", "Auto", "qmc_unknown"])))
    o("unknown-distribution", put("uq/parameters/parameter/type", rng.choice(["gauss", "uniform2", "Uniform", "beta"])))
    o("normal-distribution", put("uq/parameters/parameter/type", "normal"))
    o("unknown-statistic", put("uq/stats/stat/name", rng.choice(["mean", "meanvariance", "structures", "m2", "median"])))
    o("unknown-stat-writer", put("uq/stats/stat/writer/type", rng.choice(["hdf5", "nc", "NetCDF"])))
    o("stat-directory", put("uq/stats/stat/writer/basename", "nowhere/s"))
    o("samples-number", put("uq/samples", "four"))
    o("length-number", put("uq/parameters/parameter/length", "one"))
    o("saves-number", put("uq/stats/stat/numberOfSaves", "often"))

    def odd(s):
        s.root.find("uq/samples").text = "3"
        for k in ("--multi-x", "--multi-y", "--multi-z", "--multi-sample"):
            while k in s.args: i = s.args.index(k); del s.args[i:i + 2]
        s.args += ["--multi-sample", "2"]; s.np = 2
    o("samples-not-divisible", odd)
    o("wrong-product", lambda s: s.args.extend(["--multi-sample", "2"]) if s.np == 1 else setattr(s, "np", s.np + 1))
    return out


def outputs(s, d, base):
    """Every requested output file with content that can be read, or what is missing."""
    for f in sorted(base):
        p = os.path.join(d, f)
        if not os.path.exists(p): return "%s is missing" % f
        if f.endswith(".nc"):
            try: v = nc.read(p)[0]
            except Exception as e: return "%s can not be read: %s" % (f, e)
            if not v: return "%s is empty" % f
    return None


def body(ck):
    b = build.ensure(("alsvinncli", "alsuqcli", "alsrec", "alsio"))
    rec, io = os.path.join(b, "verif/libalsrec.so"), os.path.join(b, "verif/libalsio.so")
    rng = random.Random("C14-%d" % ck.seed)
    eqs = ["burgers", "euler1", "euler2", "linear", "euler3", "cubic", "euler2", "buckleyleverett"]
    bases = []
    for i in range(64 if ck.thorough else 10):
        c = zoo.draw(ck, "base-%d" % i, rng, eq=eqs[i % len(eqs)], kind="smooth", cfl=.1, steps=3)
        c.dims = tuple(rng.choice([24, 28, 36]) if q < c.nd and c.nd < 3 else 12 if q < c.nd else 1 for q in range(3))
        if c.nd == 3: c.dims = (16, 16, 16)
        c.P = None; c.end = None; c.seed = ck.seed
        if i % 3 == 2: c.split = rng.choice([q for q in SPLITS[c.nd] if all(c.dims[k] % q[k] == 0 for k in range(3))]); c.procs = int(np.prod(c.split))
        w = ["netcdf", "python", "dll"][(i // 2) % 3] if i % 2 else "netcdf"
        wr = {"netcdf": {"type": "netcdf", "basename": "out"}, "python": {"type": "python", "basename": "out", "pythonCode": "load:hook.py", "pythonClass": "Hook"}, "dll": cfg.recorder(rec)}[w]
        wr["numberOfSaves"] = rng.choice([1, 2, 3]); wr["writeInitialTimestep"] = True
        fs = []
        if i % 2 == 0:
            fs = [{"name": rng.choice(["identity", "log_entropy"]) if c.eq.startswith("euler") else "identity", "writer": {"type": "netcdf", "basename": "f"}, "gamma": 1.4}]
            if rng.random() < .5: fs[0]["numberOfSaves"] = 2
            else: fs[0].update(time=0., timeRadius=1e-9)
        d = os.path.join(ck.scratch, "tables", "b%d" % i)
        cf = cases.config(c, None, d, writer=wr, functionals=fs, parameters=[("amp", 1.5)])
        if fs and "time" in fs[0]: fs[0].update(time=cf.endTime / 2, timeRadius=cf.endTime / 4)
        args = ["config.xml"]
        if c.procs > 1:
            for f, q in zip(("--multi-x", "--multi-y", "--multi-z"), c.split): args += [f, str(q)]
        s = State(ET.fromstring(cf.xml()), {"init.py": cf.script, "hook.py": HOOK}, "alsvinncli", args, c.procs)
        bases.append((c.key, s, (c.eq, c.nd, w, fs, rec), c.describe(), None))
        if i % 2 == 0:
            cu = cf.copy(functionals=None, writer=None if i % 4 else {"type": "netcdf", "basename": "out", "numberOfSaves": 1})
            m = rng.choice([1, 2]); N = rng.choice([2, 4])
            cu.uq = uq.tree(N, [("amp", 1, "uniform", {"lower": 1., "upper": 2.})], [{"name": "meanvar", "numberOfSaves": 1, "writer": {"type": "netcdf", "basename": "s"}}])
            su = State(ET.fromstring(cu.xml()), {"init.py": cf.script}, "alsuqcli", ["config.xml", "--multi-sample", str(m)], m)
            bases.append((c.key.replace("base", "uq"), su, None, c.describe(), N))
    work = []
    for bi, (key, s, info, desc, N) in enumerate(bases):
        r = random.Random("%s-%d" % (key, ck.seed))
        work.append((key, "none", s, bi))
        com = s.copy()
        for e in list(com.root.iter()):
            if len(e) and r.random() < .7: e.insert(r.randrange(len(e) + 1), ET.Comment(r.choice([" a remark ", "<cfl>3</cfl>", " x & y "])))
        com.text = None
        work.append((key, "comments", com, bi))
        fl = faults(s, r, *info) if info else uqfaults(s, r) + [q for q in faults(s, r, desc["eq"], 1, "none", [], rec) if not q[0].startswith(("unknown-writer", "hdf5", "missing-writer"))]
        if not ck.thorough and len(fl) > 45:
            keep = {q[0] for q in r.sample(fl, 45)}; fl = [q for q in fl if q[0] in keep]
        for name, f in fl:
            t = s.copy(); f(t); work.append((key, name, t, bi))
        if info and info[2] != "netcdf" and not info[3]: continue
        for kind in ("open", "write"):
            for at in ([0, 1] if kind == "open" else [0, 1, 2, 3, 5, 8, 13]):
                t = s.copy(); rank = r.randrange(s.np)
                t.env = {"LD_PRELOAD": io, "ALSIO_KIND": kind, "ALSIO_AT": at, "ALSIO_MATCH": ".nc", "ALSIO_OUT": "io", "ALSIO_RANK": rank, "OMPI_MCA_io": "romio321"}  # OMPIO ignores failing writes
                work.append((key, "%s-fails-%d" % (kind, at), t, bi))
    if ck.only: work = [w for w in work if ck.only in w[0] + ":" + w[1]]
    # "pass" in place of the faults of the hook that are not asked for
    for w in work:
        if "hook.py" in w[2].files:
            for k in range(4): w[2].files["hook.py"] = w[2].files["hook.py"].replace("BOOM%d" % k, "pass")

    def one(iw):
        i, (key, name, s, bi) = iw
        d = os.path.join(ck.scratch, "w%d" % i)
        res = s.go(b, d)
        if res.timed_out: res = s.go(b, d, 240)
        fired = 0
        for f in glob.glob(os.path.join(d, "io_*")): fired += int(open(f).read().split()[1])
        got = {os.path.relpath(f, d) for p in ("*.nc", "hook_*.txt", "rec_*.rec") for f in glob.glob(os.path.join(d, p)) if os.path.isfile(f)}
        miss = None
        if name in ("none", "comments") and not res.rc:
            miss = outputs(s, d, wanted(s, bases[bi]))
        rep = glob.glob(os.path.join(d, "*_report.json")) + glob.glob(os.path.join(d, "*_report.xml"))
        if not ck.keep: shutil.rmtree(d, ignore_errors=True)
        return key, name, s, bi, res, fired, got, miss, rep

    def wanted(s, base):
        w = s.root.find("fvm/writer"); out = set()
        if w is not None:
            n = int(w.find("numberOfSaves").text) + (1 if w.find("writeInitialTimestep") is not None else 0)
            if w.find("type").text == "netcdf":
                pre = ["out"] if base[4] is None else ["out"]
                for p in pre: out |= {"%s_%d.nc" % (p, k) for k in range(n)}
        for f in s.root.findall("fvm/functionals/functional"):
            if f.find("numberOfSaves") is not None: out |= {"f_%d.nc" % k for k in range(int(f.find("numberOfSaves").text))}
            else: out.add("f_0.nc")
        if base[4] is not None: out |= {"s_mean_0.nc", "s_variance_0.nc"}
        return out
    for a in range(0, len(work), 96):
        for key, name, s, bi, res, fired, got, miss, rep in run.pool(one, list(enumerate(work))[a:a + 96]):
            info = {"base": bases[bi][3], "fault": name, "exe": s.exe, "args": s.args, "np": s.np, "env": s.env, "xml": ET.tostring(s.root, "unicode") if s.text is None else s.text}
            k = key + ":" + name
            ck.count("runs"); ck.count("mpi_runs", int(s.np > 1))
            ck.saw((s.exe, name, s.np > 1))
            if res.timed_out: ck.violation(k + ":hang", "does not end", info); continue
            if name in ("none", "comments"):
                ck.count("valid_runs")
                if res.rc: ck.violation(k, "a valid configuration fails with exit %s: %s" % (res.rc, res.tail(400)), info)
                elif miss: ck.violation(k + ":output", "success, but " + miss, info)
                elif len(rep) != 2: ck.violation(k + ":report", "success, but reports %s" % rep, info)
                continue
            if "-fails-" in name and not fired:
                ck.count("faults_not_reached")
                if res.rc: ck.violation(k, "no call failed, but exit %s: %s" % (res.rc, res.tail(300)), info)
                continue
            ck.count("injected_io_failures" if fired else "faulty_configurations")
            if not res.rc: ck.violation(k, "exit status 0 although the run has the fault %s" % name, info)
            elif rep: ck.violation(k + ":report", "the run failed (exit %s) and left a report of a completed run" % res.rc, info)
            elif not (res.err.strip() or name in ("option", "option-number", "no-input") and res.out.strip()): ck.violation(k + ":silent", "exit %s without any explanation on the error stream: %s" % (res.rc, res.out[-200:]), info)
            elif "Segmentation" in res.err or res.rc in (-11, -7, -8): ck.violation(k + ":crash", "crashes (exit %s) instead of reporting the fault: %s" % (res.rc, res.err[-300:]), info)
            elif name in PYERR and not any(q in res.err for q in PYERR[name]): ck.violation(k + ":reason", "the error in the script is not reported: %s" % res.err[-500:], info)
            ck.sample({"fault": name, "exit": res.rc, "message": res.err.strip()[:150]})


if __name__ == "__main__":
    report.main(report.Check("C14", level="fault_enumeration", rule="number of (tool, fault, several processes) combinations; one evaluation is the judgement of one run"), body)
