"""Provenance: the run report of both tools against what was really run (steps counted by the
recorder, measured wall time, command, processes), the texts and settings embedded in every
output file against the files the run read, and a second run from the embedded texts alone
against the output of the first."""
import datetime, glob, json, os, random, re, shutil, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import xml.etree.ElementTree as ET
import numpy as np
from vf import build, cases, cfg, nc, report, run, uq, zoo

SPLITS = {1: [(2, 1, 1), (3, 1, 1)], 2: [(2, 1, 1), (1, 2, 1), (2, 2, 1)], 3: [(2, 1, 1), (1, 1, 2), (1, 2, 2)]}
DIRS = ["plain", "with space", "plus+(x)", "\u00e9t\u00e9", "9lives", "dots.in.d.", "a%b", "q'q", "-x-", "deep/" * 9 + "er", "l" * 120 + "/" + "m" * 60, "_dash_x_DOT_y", "a;b,c=d"]
HOOK = '''
# AWKWARD
class Hook(object):
    def __init__(self, parameters):
        self.n = 0
    def write(self, conserved, grid, time, steps):
        self.n += 1
    def afterMPISync(self):
        pass
    def finalize(self):
        open("steps_%d.txt" % id(self), "w").write(str(self.n))
'''


def awkward(rng):
    """Text for a comment of a script."""
    t = ["", "plain", "\u00fcml\u00e4ut \u03c1 \u222b \U0001f600", "<tag attr=\"x\"> & &amp; ]]> <!-- -->", "quotes ' \" ''' \"\"\"", "tab\tand  spaces   ", "back\\slash \\n \\u1234", "%d %s {x} $y `z`",
         "x" * 5000, "\n".join("# line %d" % i for i in range(3000)), "{\"a\": [1, 2]}", "a/b.c_dash_d_DOT_e"]
    return " | ".join(rng.sample(t, rng.randrange(1, 4)))


def texts(rng, base):
    t = base
    if rng.random() < .8: t = "# " + awkward(rng) + "\n" + t
    if rng.random() < .6: t = t.rstrip("\n") + "\n# " + awkward(rng) + rng.choice(["", "\n", "\n\n\n", "   \n"])
    return t


def flat(v, pre=""):
    """Leaves of a JSON value as (path, text)."""
    if isinstance(v, dict):
        for k, x in v.items(): yield from flat(x, pre + "/" + k.replace("/", ""))
    elif isinstance(v, list):
        for x in v: yield from flat(x, pre + "/")
    else: yield pre, str(v)


def xflat(e, pre=""):
    if len(e):
        for x in e: yield from xflat(x, pre + "/" + x.tag)
    else: yield pre, e.text or ""


def word(k): return re.sub("[^A-Za-z0-9/]", "", k)      # XML can not have all characters in a name


def leaves(e, pre):
    """Unique leaves of the configuration: attribute name -> text."""
    out, n = {}, {}
    for x in e:
        p = pre + "." + x.tag; n[p] = n.get(p, 0) + 1
        if len(x):
            for k, v in leaves(x, p).items(): out[k] = v if n[p] == 1 else None
        else: out[p] = (x.text or "") if n[p] == 1 else None
    return out


def mangle(path): return path.replace("/", "_dash_").replace(".", "_DOT_")


def names_in(attrs, path):
    """Value of the attribute with the text of a file (long names are shortened in the middle)."""
    k = "alsvinn_report.loadedTextFiles." + mangle(path)
    if len(k.encode()) <= 256: return attrs.get(k)
    tail = mangle("/" + os.path.basename(path))
    m = [v for a, v in attrs.items() if a.startswith("alsvinn_report.load") and a.endswith(tail)]
    return m[0] if len(m) == 1 else None


def iso(t): return datetime.datetime.strptime(t.split(".")[0].split(",")[0], "%Y%m%dT%H%M%S").timestamp()


def body(ck):
    b = build.ensure(("alsvinncli", "alsuqcli", "alsrec"))
    rec = os.path.join(b, "verif/libalsrec.so")
    rng = random.Random("C23-%d" % ck.seed)
    eqs = ["burgers", "euler1", "euler2", "linear", "euler3", "cubic", "euler2", "buckleyleverett"]
    work = []
    for i in range(240 if ck.thorough else 40):
        r = random.Random("C23-%d-%d" % (ck.seed, i))
        c = zoo.draw(ck, "r%d" % i, r, eq=eqs[i % len(eqs)], kind="smooth", cfl=r.choice([.05, .1]), steps=r.choice([1, 3, 6]))
        c.dims = tuple(24 if q < c.nd and c.nd < 3 else 12 if q < c.nd else 1 for q in range(3))
        c.P = None; c.end = None; c.seed = ck.seed
        c.threads = r.choice([1, 1, 2, 3])
        if i % 3 == 2:
            ok = [q for q in SPLITS[c.nd] if all(c.dims[k] % q[k] == 0 for k in range(3)) and all(q[k] == 1 or c.dims[k] // q[k] >= 4 for k in range(3))]
            c.split = r.choice(ok); c.procs = int(np.prod(c.split))
        work.append((i, c, r))

    def one(w):
        i, c, r = w
        if ck.only and ck.only != c.key: return
        top = os.path.join(ck.scratch, "w%d" % i)
        d = os.path.join(top, r.choice(DIRS)); os.makedirs(d)
        sub = r.choice(["", "", "conf.d/", "my conf/"]); hooked = i % 4 == 1
        tool = "alsuqcli" if i % 5 in (3, 4) else "alsvinncli"
        m, N = (r.choice([1, 2]), 4) if tool == "alsuqcli" else (1, 1)
        if m * c.procs > 4: m = 1
        name = r.choice(["run", "n\u00e4me", "two words", "x.y-z", "R2&D<3>"])
        writer = [{"type": "netcdf", "basename": "out", "numberOfSaves": 2}, {"type": "netcdf", "basename": "out"}, cfg.recorder(rec)][i % 3 if tool == "alsvinncli" else 2 * r.randrange(2)]
        if hooked: writer = {"type": "python", "basename": "out", "pythonCode": "load:hooks/hook.py", "pythonClass": "Hook"}
        fs = [{"name": "identity", "writer": {"type": "netcdf", "basename": "f"}, "numberOfSaves": 2}] if tool == "alsvinncli" and (writer["type"] != "netcdf" or r.random() < .4) else []
        pars = [("amp", 1.5), ("list", [.1, .2])] if r.random() < .6 or tool == "alsuqcli" else None
        cf = cases.config(c, None, os.path.join(top, "tables"), writer=writer, functionals=fs, parameters=pars, name=name)
        if tool == "alsuqcli":
            cf.uq = uq.tree(N, [("amp", 1, "uniform", {"lower": 1., "upper": 2.})], [{"name": "meanvar", "numberOfSaves": 2, "writer": {"type": "netcdf", "basename": "s"}}])
        init = texts(r, cf.script)
        if pars: init += "\nassert_me = 1\n"
        selfmod = r.random() < .3 and c.procs * m == 1
        files = {}
        hook = texts(r, HOOK.replace("AWKWARD", awkward(r).replace("\n", " ")))
        x = cf.xml()
        if r.random() < .5: x = "<!-- %s -->\n" % awkward(r).replace("--", "==") + x
        if r.random() < .3: x = '<?xml version="1.0" encoding="utf-8"?>\n' + x
        if r.random() < .3: x = x.replace("\n", "\r\n")
        files[sub + "config.xml"] = x; files[sub + "init.py"] = init
        if hooked: files[sub + "hooks/hook.py"] = hook
        root = ET.fromstring(x)
        if selfmod:       # the script rewrites the files the run has read
            files[sub + "init.py"] = init = init + "\nimport os\nfor q_ in (%s):\n    if os.path.exists(q_):\n        with open(q_, 'a') as f_: f_.write('# changed')\n" % ", ".join(repr(os.path.join(d, f)) for f in files)
            # (as in every run with this kind of script, only at import)
        argv = [os.path.join(b, "%s/%s" % (tool, tool))]
        opts = []
        if c.procs > 1:
            for f, q in zip(("--multi-x", "--multi-y", "--multi-z"), c.split): opts += [f, str(q)]
        if tool == "alsuqcli": opts += ["--multi-sample", str(m)]
        argv += opts + [sub + "config.xml"] if r.random() < .5 else [sub + "config.xml"] + opts

        def go(d):
            for f, t in files.items():
                os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
                with open(os.path.join(d, f), "w", newline="") as o: o.write(t)
            t0 = time.time()
            res = run.execute(run.mpi(argv, c.procs * m), d, c.threads, 150, {"TMPDIR": "/tmp"} if len(d) > 100 or c.procs * m > 1 else None)
            return res, t0, time.time()
        info = dict(c.describe(), tool=tool, dir=os.path.relpath(d, top), argv=argv, name=name, files={k: v[:3000] for k, v in files.items()}, selfmod=selfmod, multi=m)
        res, t0, t1 = go(d)
        if res.rc or res.timed_out:
            ck.violation(c.key + ":run", "the run fails (exit %s): %s" % (res.rc, res.tail(300)), info); return
        V = lambda k, msg: ck.violation(c.key + ":" + k, msg, info)
        # --- the report
        base = os.path.join(d, "%s_%s_report" % (tool, name))
        try: J = json.load(open(base + ".json", encoding="utf-8"))
        except Exception as e: V("json", "JSON report can not be read: %s" % e); return
        try: X = ET.parse(base + ".xml").getroot()
        except Exception as e: V("xml", "XML report can not be read: %s" % e); return
        a = [(word(k), v.replace("\r\n", "\n").strip()) for k, v in flat(J)]; bb = [(word("/" + X.tag + k), v.replace("\r\n", "\n").strip()) for k, v in xflat(X)]
        if [v for _, v in a] != [v for _, v in bb] or [k for k, _ in a] != [k for k, _ in bb]:
            q = [(p, s) for p, s in zip(a, bb) if p != s][:2]
            V("formats", "the two reports differ (%d / %d values): %s" % (len(a), len(bb), str(q)[:300]))
        R = J["report"]; ck.count("report_values", len(a))
        def same(k, want):
            if R.get(k) != str(want): V(k, "report: %s is %r, not %r" % (k, str(R.get(k))[:200], str(want)[:200]))
        same("name", name); same("executable", tool); same("mpiProcesses", c.procs * m); same("ompThreads", c.threads)
        same("command", " ".join(argv) + " "); same("currentWorkingDirectory", os.path.realpath(d)); same("floatingPointType", "double")
        if not t0 - 2 <= iso(R["endTime"]) <= t1 + 2: V("endTime", "the end is reported at %s, the run ended around %s" % (R["endTime"], datetime.datetime.fromtimestamp(t1)))
        if not (0 <= int(R["wallTime"]) <= (t1 - t0) * 1000 + 1000): V("wallTime", "wall time %s ms, measured %.0f ms" % (R["wallTime"], (t1 - t0) * 1000))
        if not (0 <= int(R["cpuDuration"]) <= (t1 - t0) * 1000 + 1000): V("cpuDuration", "cpu time %s ms, the run took %.0f ms" % (R["cpuDuration"], (t1 - t0) * 1000))
        tm = float(R["timings"]["allTimedEvents"]["alsvinn"]["totalTime"])
        if not 0 <= tm <= t1 - t0 + 1: V("timings", "timed %g s of a run of %g s" % (tm, t1 - t0))
        # number of steps
        steps = None
        if writer["type"] == "dll":
            L = run.logs(d); per = {}
            for (rank, k), l in L.items(): per.setdefault(k if tool == "alsvinncli" else (rank // c.procs, k), []).append(len(l.steps) - 1)
            if len(per) == N: steps = sum(v[0] for v in per.values())
            else: V("instances", "%d simulations recorded, not %d" % (len(per), N))
        elif hooked:
            n = [int(open(f).read()) for f in glob.glob(os.path.join(glob.escape(d), "steps_*.txt"))]
            if c.procs * m == 1 and N == 1 and len(n) == 1: steps = n[0] - 1
        elif "numberOfSaves" not in writer and tool == "alsvinncli": steps = len(glob.glob(os.path.join(glob.escape(d), "out_*.nc"))) - 1
        if steps is not None: same("timesteps", steps); ck.count("step_counts")
        paths = {f: os.path.join(os.path.realpath(d), os.path.dirname(f), os.path.basename(f)) for f in files}
        lt = R["loadedTextFiles"]
        for f, t in files.items():
            v = lt.get(mangle(paths[f]))
            if v != t: V("report-text:" + os.path.basename(f), "the report has %s as the text of %s" % ("nothing" if v is None else "another text (%d instead of %d characters)" % (len(v), len(t)), f))
        # --- the output files
        outs = sorted(glob.glob(os.path.join(glob.escape(d), "*.nc")))
        if not outs: V("no-output", "no output files"); return
        got = {}
        for o in outs:
            vs, at, _ = nc.read(o); got[os.path.basename(o)] = vs
            for f, t in files.items():
                v = names_in(at, paths[f]); ck.count("embedded_texts")
                if v is None: V("no-text:" + os.path.basename(f), "%s does not embed %s" % (os.path.basename(o), f))
                elif v != t: V("text:" + os.path.basename(f), "%s embeds another text of %s (%d instead of %d characters)" % (os.path.basename(o), f, len(v), len(t)))
            if os.path.basename(o).startswith(("out", "s_")):
                pre = "fvm_configuration" if os.path.basename(o).startswith("out") else "uqAttributes"
                for k, v in leaves(root, pre).items():
                    if v is None or k.count(".load"): continue
                    ck.count("embedded_settings")
                    if len(k) <= 256 and (k not in at or str(at[k]).strip() != v.strip().replace("\r\n", "\n")): V("setting:" + k, "%s: setting %s is %r, not %r" % (os.path.basename(o), k, str(at.get(k))[:100], v[:100]))
            if "alsvinn_report.generatedAt" in at and not t0 - 2 <= iso(at["alsvinn_report.generatedAt"]) <= t1 + 2: V("generatedAt", "%s says it was written at %s" % (o, at["alsvinn_report.generatedAt"]))
            if str(at.get("alsvinn_report.mpiProcesses")) != str(c.procs * m): V("mpi", "%s says %s processes" % (o, at.get("alsvinn_report.mpiProcesses")))
        # --- again, from what the first (or last) output file embeds
        at = nc.read(r.choice(outs))[1]
        again = {f: names_in(at, paths[f]) for f in files}
        if all(isinstance(v, str) for v in again.values()):
            d2 = os.path.join(top, "again"); os.makedirs(d2); files = again
            res2, _, _ = go(d2)
            if res2.rc: V("again", "the run from the embedded texts fails: %s" % res2.tail(300))
            else:
                o2 = {f: nc.read(os.path.join(d2, f))[0] for f in os.listdir(d2) if f.endswith(".nc")}
                if set(o2) != set(got): V("again-files", "the run from the embedded texts writes other files: %s" % sorted(set(o2) ^ set(got))[:6])
                for f in set(o2) & set(got):
                    for v in got[f]:
                        ck.count("reproduced_variables")
                        if v not in o2[f] or not np.array_equal(got[f][v], o2[f][v], equal_nan=True): V("again:" + v, "the run from the embedded texts gives another %s in %s" % (v, f))
        ck.saw((tool, c.procs, m, os.path.basename(os.path.dirname(d + "/x"))[:20], writer["type"], bool(sub), selfmod, hooked))
        ck.sample({"tool": tool, "dir": os.path.relpath(d, top)[:60], "processes": c.procs * m, "outputs": len(outs), "steps": steps})
        if not ck.keep: shutil.rmtree(top, ignore_errors=True)
    run.pool(one, work)


if __name__ == "__main__":
    report.main(report.Check("C23", rule="number of (tool, processes, samples layout, kind of directory and writer) combinations; one evaluation is one run whose report, output files and repetition were judged"), body)
