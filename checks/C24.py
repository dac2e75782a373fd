"""Python interface: random programs using the interface are run in a process of their own;
the configuration they hand to the tools is compared with the settings they made, their
output bit for bit with the command line tool run on an independently written
configuration, and what the interface returns with the output files."""
import copy, glob, os, random, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import xml.etree.ElementTree as ET
import numpy as np
from vf import build, cfg, nc, report, run

SOD = "if x < 0.0:\n    rho = 1.\n    ux = 0.\n    p = 1.0\nelse:\n    rho = .125\n    ux = 0.\n    p = 0.1\n"
SETUP = {  # equation -> fluxes, script
    "burgers": (["godunov", "rusanov", "roe", "tecno1"], "u = 1.0 + 0.3 * sin(6.283185307179586 * x * w[0] / 1.0) + amp * 0.1 + 0.1 * y\n"),
    "linear": (["upwind", "rusanov"], "u = amp + x * x + 0.2 * y\n"),
    "euler1": (["hll", "hll3", "tecno4"], "rho = 1.0 + 0.2 * sin(6.283185307179586 * x)\nux = 0.1 * amp\np = 1.0 + 0.1 * w[0]\n"),
    "euler2": (["hll", "hll3"], "rho = 1.0 + 0.2 * sin(6.283185307179586 * x) * cos(6.283185307179586 * y)\nux = 0.1 * amp\nuy = -0.1\np = 1.0 + 0.1 * w[0]\n"),
    "euler3": (["hll3"], "rho = 1.0 + 0.2 * sin(6.283185307179586 * x) + 0.1 * z\nux = 0.1 * amp\nuy = -0.1\nuz = 0.05\np = 1.0 + 0.1 * w[0]\n"),
}
DIM = {"burgers": (1, 2), "linear": (1, 2, 3), "euler1": (1,), "euler2": (2,), "euler3": (3,)}
CONS = {"burgers": ["u"], "linear": ["u"], "euler1": ["rho", "mx", "E"], "euler2": ["rho", "mx", "my", "E"], "euler3": ["rho", "mx", "my", "mz", "E"]}

TAIL = '''
import numpy, pickle, os, matplotlib.pyplot as plt
res = {"dimension": obj.get_dimension(), "name": obj.get_name(), "line": obj.get_line_segment(), "grid": obj.get_2d_grid(), "data": {}, "time": {}, "plots": []}
for ts in range(SAVES):
    res["time"][ts] = float(obj.get_time(ts))
    for v in VARS:
        for s in range(SAMPLES):
            res["data"][v, ts, s, None] = numpy.array(obj.get_data(v, ts) if s == START == 0 else obj.get_data(v, ts, sample=s + START))
        for st in STATS:
            res["data"][v, ts, 0, st] = numpy.array(obj.get_data(v, ts, statistics=st))
def show():
    a = plt.gcf().axes[0]
    if a.lines: res["plots"].append((numpy.array(a.lines[0].get_xdata()), numpy.array(a.lines[0].get_ydata()), a.get_title()))
    else:
        q = a.collections[0]
        res["plots"].append((numpy.array(q.get_coordinates()), numpy.array(q.get_array()), a.get_title()))
    plt.close("all")
plt.show = show
if PLOT:
    for v in VARS:
        obj.plot(v, SAVES - 1, sample=START)
        if STATS: obj.plot(v, SAVES - 1, statistics=STATS[0])
pickle.dump(res, open("result.pkl", "wb"))
'''


def canon(e):
    """A configuration element as nested tuples, numbers compared as numbers, settings in any order."""
    ch = list(e)
    if not ch:
        t = (e.text or "").split()
        out = []
        for q in t:
            try: out.append(float({"true": "1", "false": "0", "True": "1", "False": "0"}.get(q, q)))
            except ValueError: out.append(q)
        return tuple(out)
    items = [(c.tag, canon(c)) for c in ch]
    names = [n for n, _ in items]
    if len(set(names)) == len(names): items.sort(key=lambda q: q[0])
    return tuple(items)


def diff(a, b, path=""):
    if a == b: return None
    if a and b and all(isinstance(q, tuple) and len(q) == 2 and isinstance(q[0], str) for q in a + b):
        da, db = dict(a), dict(b)
        for k in sorted(set(da) | set(db)):
            if da.get(k) != db.get(k):
                return diff(da.get(k), db.get(k), path + "/" + k) or "%s (repeated)" % path
    return "%s: %s instead of %s" % (path, a, b)


def settings(r, eq):
    """Random settings of a run: tree of the configuration (fvm part) and the keywords giving it."""
    nd = r.choice(DIM[eq])
    dim = [r.choice([8, 12, 16]) if k < nd else 1 for k in range(3)]
    lower = [round(r.uniform(-1, 0), 2) if k < nd and r.random() < .5 else 0 for k in range(3)]
    upper = [lower[k] + r.choice([1, .5, 1.3]) if k < nd else r.choice([0, 1]) for k in range(3)]
    flux = r.choice(SETUP[eq][0])
    kw = {"equation": eq, "flux": flux, "T": r.choice([.01, .02, .0123]), "boundary": r.choice(["periodic", "neumann"]),
          "reconstruction": "none" if flux.startswith("tecno") else r.choice(["none", "eno2", "weno2"]), "cfl": r.choice(["auto", .2, .1]),
          "integrator": r.choice(["auto", "forwardeuler", "rungekutta2", "rungekutta3"]), "dimension": dim, "lower_corner": lower, "upper_corner": upper,
          "initial_parameters": {"w": r.choice([[1., .25], [.5, 2, 3.25]]), "amp": r.choice([1, .75, [0.5]])},
          "number_of_saves": r.choice([1, 2, 3]), "name": r.choice(["experiment", "my_run", "run-2.5"]), "platform": "cpu"}
    if eq.startswith("euler"): kw["equation_parameters"] = {"gamma": r.choice([1.4, 1.67])}
    if r.random() < .5: kw["write_initial_timestep"] = r.choice([True, False])
    if flux.startswith("tecno"): kw["diffusion_operator"], kw["diffusion_reconstruction"] = r.choice([("tecnoroe", "eno2"), ("none", "none")])
    if r.random() < .3: kw["functionals"] = [{"name": "identity", "numberOfSaves": 2, "writer": {"type": "netcdf", "basename": "func"}}] + ([{"name": "moment", "degree": 2, "numberOfSaves": 1, "writer": {"type": "netcdf", "basename": "mom"}}] if r.random() < .4 else [])
    return kw


def tree(kw, base=None):
    """The fvm part a configuration should have after the settings kw (on top of base)."""
    f = copy.deepcopy(base) if base else {}
    d = {} if base else {"equation": "euler1", "flux": "hll3", "T": 1.3, "boundary": "neumann", "reconstruction": "weno2", "cfl": "auto", "integrator": "auto",
                         "dimension": [128, 1, 1], "lower_corner": [-5, 0, 0], "upper_corner": [5, 0, 0], "initial_parameters": {}, "number_of_saves": 1,
                         "equation_parameters": {"gamma": 1.4}, "platform": "cpu", "name": "alsvinn_experiment", "diffusion_operator": "none", "diffusion_reconstruction": "none"}
    d.update({k: v for k, v in kw.items() if v is not None})
    for k, t in (("name", "name"), ("equation", "equation"), ("flux", "flux"), ("T", "endTime"), ("boundary", "boundary"), ("reconstruction", "reconstruction"), ("cfl", "cfl"), ("platform", "platform"), ("integrator", "integrator")):
        if k in d: f[t] = d[k]
    if "number_of_saves" in d: f["writer"] = {"type": "netcdf", "basename": f["name"], "numberOfSaves": d["number_of_saves"], "writeInitialTimestep": int(kw.get("write_initial_timestep", True))}
    g = f.setdefault("grid", {})
    for k, t in (("dimension", "dimension"), ("lower_corner", "lowerCorner"), ("upper_corner", "upperCorner")):
        if k in d: g[t] = tuple(d[k])
    if "initial_parameters" in d and (not base or "initial_data_script" in kw or "initial_data_file" in kw):
        ps = []
        for n, v in d["initial_parameters"].items():
            v = np.atleast_1d(v).tolist()
            ps.append({"name": n, "length": len(v), "value": v[0]} if len(v) == 1 else {"name": n, "length": len(v), "values": {"value": v}})
        f["initialData"] = {"python": "init.py", "parameters": {"parameter": ps} if ps else ""}
    if "equation_parameters" in d: f["equationParameters"] = d["equation_parameters"]
    if "functionals" in d: f["functionals"] = {"functional": d["functionals"]}
    if "diffusion_operator" in d: f["diffusion"] = {"name": d["diffusion_operator"], "reconstruction": d["diffusion_reconstruction"]}
    return f


def xml(t): return "<config>\n" + "".join(cfg._xml(k, v) for k, v in t.items()) + "</config>\n"


def decorate(r, x):
    """The same configuration as a person might write it."""
    if r.random() < .6: x = x.replace("<config>\n", "<config>\n  <!-- settings of the run -->\n", 1)
    if r.random() < .6: x = x.replace("    <flux>", "    <!-- <flux>other</flux> -->\n    <flux>", 1)
    if r.random() < .4: x = x.replace("<grid>\n", "<grid>\n<!-- cells -->\n", 1)
    if r.random() < .5: x = x.replace("<name>run</name>", "<name>\n      run\n    </name>", 1)
    if r.random() < .4:
        a, c = x.split("<lowerCorner>", 1); b, c = c.split("</lowerCorner>", 1)
        x = a + "<lowerCorner>" + b.replace(" ", "\t") + "</lowerCorner>" + c
    if r.random() < .3: x = '<?xml version="1.0" encoding="utf-8"?>\n' + x
    return x


def body(ck):
    b = build.ensure(("alsvinncli", "alsuqcli"))
    api = os.path.join(ck.scratch, "api"); os.makedirs(os.path.join(api, "alsvinn"))
    for f in glob.glob(os.path.join(build.REPO, "python/alsvinn/*.py")): shutil.copy(f, os.path.join(api, "alsvinn"))
    shutil.copy(os.path.join(b, "python/alsvinn/config.py"), os.path.join(api, "alsvinn"))
    eqs = list(SETUP)

    def py(d, prog, timeout=150):
        open(os.path.join(d, "program.py"), "w").write(prog)
        return run.execute(["/usr/bin/python3.12", "program.py"], d, 2, timeout, {"PYTHONPATH": api, "MPLBACKEND": "Agg"})

    def one(i):
        r = random.Random("C24-%d-%d" % (ck.seed, i)); key = "p%d" % i
        if ck.only and ck.only != key: return
        top = os.path.join(ck.scratch, key); d, e = os.path.join(top, "with"), os.path.join(top, "cli")
        os.makedirs(d); os.makedirs(e)
        eq = eqs[i % len(eqs)]; kw = settings(r, eq)
        script = SETUP[eq][1]
        style = ["run", "run-base", "object", "uq", "fault", "run", "object2", "uq", "dict"][i % 9]
        procs, tool, extra, uqt, samples, start, stats = (1, 1, 1), "alsvinncli", "", None, 1, 0, []
        nd = sum(q > 1 for q in kw["dimension"]); multi = 1
        if r.random() < .35 and style != "fault":
            k = r.randrange(nd); procs = tuple(2 if q == k else 1 for q in range(3))
        mk = ", ".join("%s=2" % n for n, q in zip(("multix", "multiy", "multiz"), procs) if q == 2)
        info = {"style": style, "settings": kw, "processes": procs}
        V = lambda k, m: ck.violation(key + ":" + k, m, info)
        keep = lambda k: {q: v for q, v in kw.items() if q in k}
        omp = r.choice([None, 1, 2])
        if omp: mk += (", " if mk else "") + "omp_num_threads=%d" % omp
        if style in ("run", "fault"):
            how = r.choice(["script", "file", "samefile", "default"]) if style == "run" else "script"
            drop = [k for k in list(kw) if r.random() < .15 and k not in ("dimension", "lower_corner", "upper_corner", "equation", "flux", "T", "initial_parameters", "cfl", "reconstruction", "diffusion_operator", "diffusion_reconstruction")]
            if style == "run":
                for k in drop: kw.pop(k)
            if how == "default":
                kw = {k: kw[k] for k in ("T", "boundary", "cfl", "integrator", "number_of_saves", "name", "functionals", "write_initial_timestep") if k in kw}
                kw["dimension"] = [16, 1, 1]; eq = "euler1"; script = SOD; kw["T"] = .05; procs = tuple(2 if q == 2 and k == 0 else 1 for k, q in enumerate(procs))
                mk = ("multix=2" if procs[0] == 2 else "") + (", omp_num_threads=%d" % omp if omp else ""); mk = mk.lstrip(", ")
            else:
                if how == "script": kw["initial_data_script"] = script
                else:
                    fn = (kw.get("name", "alsvinn_experiment") + ".py") if how == "samefile" else r.choice(["start.py", "data/start.py"])
                    os.makedirs(os.path.dirname(os.path.join(d, fn)), exist_ok=True)
                    open(os.path.join(d, fn), "w").write(script); kw["initial_data_file"] = fn
            info["settings"] = kw; f = tree(kw)
            f.setdefault("initialData", {"python": "init.py"})
            prog = "import alsvinn\nobj = alsvinn.run(%s%s)\n" % (", ".join("%s=%r" % q for q in r.sample(list(kw.items()), len(kw))), ", " + mk if mk else "")
            if style == "fault":
                what = r.choice(["flux", "equation", "integrator", "reconstruction", "boundary", "cfl", "script", "undefined", "processes", "grid", "file", "platform"])
                k2 = dict(kw); tail = ""
                if what in ("flux", "equation", "integrator", "reconstruction", "boundary", "platform"): k2[what] = "no_such_" + what
                elif what == "cfl": k2["cfl"] = "fast"
                elif what == "script": k2["initial_data_script"] = script + "\n)("
                elif what == "undefined": k2["initial_data_script"] = script + "\nq = no_such_name\n"
                elif what == "processes": tail = ", multix=5"
                elif what == "grid": k2["dimension"] = [1, 1, 1]; k2["reconstruction"] = "weno2"
                elif what == "file": k2.pop("initial_data_script"); k2["initial_data_file"] = "missing.py"
                info["fault"] = what
                prog = "import alsvinn\ntry:\n    alsvinn.run(%s%s)\nexcept Exception as e:\n    print('RAISED', type(e).__name__, e)\nelse:\n    print('PASSED')\n" % (", ".join("%s=%r" % q for q in k2.items()), tail)
                res = py(d, prog)
                ck.saw(("fault", what)); ck.count("faults")
                if "RAISED" not in res.out: V("fault-" + what, "no exception for a run with the fault %s: %s" % (what, res.tail(300)))
                elif what not in ("processes", "file") and "The error message was" not in res.out and "what()" not in res.out: V("reason-" + what, "the exception does not tell what the tool said: %s" % res.out[-500:])
                if not ck.keep: shutil.rmtree(top, ignore_errors=True)
                return
        else:
            # a configuration in another folder
            base = tree(dict(kw, name="run", initial_data_script=script))
            pfile = r.choice(["init.py", "run.py", "scripts/init.py"])
            base["initialData"]["python"] = pfile
            bd = os.path.join(top, "conf"); os.makedirs(os.path.dirname(os.path.join(bd, pfile)), exist_ok=True)
            open(os.path.join(bd, pfile), "w").write(script)
            k2 = settings(r, eq); k2["dimension"] = kw["dimension"]; nm = "run"
            if style == "uq":
                tool = "alsuqcli"; samples = r.choice([2, 4]); multi = r.choice([1, 2])
                if base["writer"]["numberOfSaves"] < 1: base["writer"]["numberOfSaves"] = 1
                base.pop("functionals", None)
                base["initialData"]["parameters"]["parameter"] = [q for q in base["initialData"]["parameters"]["parameter"]]
                wl = [q for q in base["initialData"]["parameters"]["parameter"] if q["name"] == "w"][0]["length"]
                ps = [{"name": "amp", "length": 1, "type": "uniform"}] + ([{"name": "w", "length": wl, "type": r.choice(["uniform", "uniform1D"] if wl == 1 else ["uniform"])}] if r.random() < .5 else [])
                st = [{"name": "meanvar", "numberOfSaves": base["writer"]["numberOfSaves"], "writeInitialTimestep": base["writer"]["writeInitialTimestep"], "writer": {"type": "netcdf", "basename": "mv"}}]
                stats = ["mean", "variance"]
                if r.random() < .5: st.append(dict(st[0], name="onepointmoment", p=2, writer={"type": "netcdf", "basename": "mo"})); stats.append("m2")
                if r.random() < .3: st.reverse()
                uqt = {"samples": samples, "generator": r.choice(["auto", "stlmersenne"]), "parameters": {"parameter": ps}, "stats": {"stat": st}}
            btree = {"fvm": base}
            if uqt: btree["uq"] = uqt
            open(os.path.join(bd, "run.xml"), "w").write(decorate(r, xml(btree)))
            path = r.choice([os.path.join(bd, "run.xml"), "../conf/run.xml"])
            if style == "run-base":
                ch = {q: v for q, v in k2.items() if q in ("T", "boundary", "integrator", "cfl", "upper_corner", "number_of_saves", "write_initial_timestep", "name", "equation_parameters") and r.random() < .5}
                if "upper_corner" in ch:
                    if r.random() < .6: ch["lower_corner"] = k2["lower_corner"]
                    else: ch["upper_corner"] = [q + .4 if k < nd else q for k, q in enumerate(base["grid"]["upperCorner"])]
                if "number_of_saves" not in ch: ch.pop("write_initial_timestep", None)
                f = tree(ch, base); nm = f["name"]
                prog = "import alsvinn\nobj = alsvinn.run(base_xml=%r, %s)\n" % (path, ", ".join("%s=%r" % q for q in ch.items()) + (", " + mk if mk else ""))
                info["changes"] = ch
            elif style == "dict":
                f = copy.deepcopy(base)
                cd = copy.deepcopy(base); cd["initialData"]["parameters"] = cd["initialData"]["parameters"]["parameter"]; cd["initialData"]["python"] = os.path.join(bd, pfile)
                if "functionals" in cd: cd["functionals"] = cd["functionals"]["functional"]
                for p in cd["initialData"]["parameters"]:
                    if "values" in p: p["values"] = p["values"]["value"]
                prog = "import alsvinn\nobj = alsvinn.Alsvinn(configuration=%r%s)\nobj.run(%s)\n" % (cd, ", omp_num_threads=%d" % omp if omp else "", ", ".join(q for q in mk.split(", ") if q.startswith("multi")))
            else:
                f = copy.deepcopy(base); u = copy.deepcopy(uqt)
                lines = ["import alsvinn", "obj = alsvinn.Alsvinn(%r%s)" % (path, ", omp_num_threads=%d" % omp if omp else "")]
                ops = r.sample(["T", "cfl", "grid", "lower", "upper", "dim", "initial", "eqp", "writer", "diff", "func", "name", "removewriter", "nouq"], r.randrange(0, 6))
                if style == "uq": ops = [o for o in ops if o not in ("func", "initial", "removewriter", "writer")] + r.sample(["samples", "generator", "start", "dist", "stat"], r.randrange(0, 4))
                for o in ops:
                    if o == "T": f["endTime"] = k2["T"]; lines.append("obj.set_fvm_value('endTime', %r)" % k2["T"])
                    elif o == "cfl": f["cfl"] = .15; lines.append("obj.set_fvm_value('cfl', 0.15)")
                    elif o == "grid":
                        f["grid"] = {"lowerCorner": tuple(k2["lower_corner"]), "upperCorner": tuple(k2["upper_corner"]), "dimension": tuple(k2["dimension"])}
                        lines.append("obj.set_cartesian_grid(%r, %r, %r)" % (k2["lower_corner"], k2["upper_corner"], k2["dimension"]))
                    elif o == "lower":
                        lo = [q - .25 if k < nd else q for k, q in enumerate(f["grid"]["lowerCorner"])]; f["grid"]["lowerCorner"] = tuple(lo); lines.append("obj.set_lower_corner(%r)" % lo)
                    elif o == "upper":
                        up = [q + .5 if k < nd else q for k, q in enumerate(f["grid"]["upperCorner"])]; f["grid"]["upperCorner"] = tuple(up); lines.append("import numpy\nobj.set_upper_corner(numpy.array(%r))" % up)
                    elif o == "dim":
                        di = [q + 4 if q > 1 else 1 for q in f["grid"]["dimension"]]; f["grid"]["dimension"] = tuple(di); lines.append("obj.set_dimension(%r)" % di)
                    elif o == "initial":
                        open(os.path.join(d, "mine.py"), "w").write(script + "# mine\n"); script2 = script + "# mine\n"
                        pv = {"amp": .25, "w": [.5, .75]}
                        f["initialData"]["parameters"] = {"parameter": [{"name": "amp", "length": 1, "value": .25}, {"name": "w", "length": 2, "values": {"value": [.5, .75]}}]}
                        lines.append("obj.set_initial_data('mine.py', %r)" % pv); script = script2
                    elif o == "eqp" and eq.startswith("euler"): f["equationParameters"] = {"gamma": 1.5}; lines.append("obj.set_equation_parameters({'gamma': 1.5})")
                    elif o == "writer":
                        f["writer"] = {"type": "netcdf", "basename": "mywriter", "numberOfSaves": 2, "writeInitialTimestep": 0}
                        lines.append("obj.set_fvm_writer('netcdf', 'mywriter', 2, False)")
                    elif o == "diff": f["diffusion"] = {"name": "none", "reconstruction": "none"}; lines.append("obj.set_diffusion('none', 'none')")
                    elif o == "func":
                        fn = {"name": "moment", "degree": 3, "numberOfSaves": 1, "writer": {"type": "netcdf", "basename": "third"}}
                        old = f.get("functionals", {"functional": []})["functional"]; f["functionals"] = {"functional": list(old) + [fn]}; lines.append("obj.add_functional(%r)" % fn)
                    elif o == "name": f["name"] = nm = "renamed"; lines.append("obj.set_fvm_value('name', 'renamed')")
                    elif o == "removewriter": lines.append("saved = obj.fvmSettings.get('writer')\nobj.remove_fvm_writer()\nif saved is not None: obj.set_fvm_value('writer', saved)")
                    elif o == "samples": u["samples"] = samples = 4; lines.append("obj.set_uq_value('samples', 4)")
                    elif o == "generator": u["generator"] = "stlmersenne"; lines.append("obj.set_uq_value('generator', 'stlmersenne')")
                    elif o == "start": u["sampleStart"] = start = 3; lines.append("obj.set_uq_value('sampleStart', 3)")
                    elif o == "dist":
                        for p in u["parameters"]["parameter"]: p["type"] = "uniform"
                        lines.append("obj.set_distribution('uniform')")
                    elif o == "stat":
                        u["stats"]["stat"].append({"name": "meanvar", "numberOfSaves": 1, "writeInitialTimestep": 0, "writer": {"type": "netcdf", "basename": "extra"}})
                        lines.append("obj.add_statistics('meanvar', 'netcdf', 'extra', 1, False)")
                rk = [q for q in mk.split(", ") if q.startswith("multi")]
                if style == "uq": rk += ["uq=True"] + (["multiSample=2"] if multi == 2 else [])
                lines.append("obj.run(%s)" % ", ".join(rk))
                if style == "object2":         # a second run with the same object
                    f["endTime"] = .015; f["name"] = nm = "second"
                    lines += ["obj.set_fvm_value('endTime', 0.015)", "obj.set_fvm_value('name', 'second')", "obj.run(%s)" % ", ".join(rk)]
                prog = "\n".join(lines) + "\n"; info["program"] = prog; uqt = u
        w = f["writer"]; saves = int(w["numberOfSaves"]) + int(w["writeInitialTimestep"])
        dim = f["grid"]["dimension"]; nd = sum(q > 1 for q in dim)
        prog += TAIL.replace("SAVES", str(saves)).replace("VARS", repr(CONS[eq])).replace("SAMPLES", str(samples)).replace("STATS", repr(stats)).replace("START", str(start)).replace("PLOT", repr(nd < 3 and r.random() < .6))
        info["program"] = prog
        res = py(d, prog)
        # the same on the command line
        name = f["name"]; f["initialData"]["python"] = "init.py"
        open(os.path.join(e, "init.py"), "w").write(script)
        t = {"fvm": f}
        if uqt: t["uq"] = uqt
        open(os.path.join(e, "config.xml"), "w").write(xml(t))
        cmd = [os.path.join(b, "%s/%s" % (tool, tool))]
        for o, q in zip(("--multi-x", "--multi-y", "--multi-z"), procs): cmd += [o, str(q)]
        if tool == "alsuqcli": cmd += ["--multi-sample", str(multi)]
        ref = run.execute(run.mpi(cmd + ["config.xml"], int(np.prod(procs)) * multi), e, 2, 150)
        if ref.rc:
            if "Traceback" not in res.err: V("differs", "the tool refuses the configuration, the interface does not: %s" % ref.tail(200))
            else: ck.count("refused_by_both"); ck.sample({"refused": ref.err[:300], "style": style})
            return
        if res.rc: V("fails", "the program fails: %s" % res.err[-600:]); return
        # the configuration
        gen = os.path.join(d, name + ".xml")
        if not os.path.exists(gen): V("no-configuration", "no configuration file %s.xml" % name); return
        x, y = ET.parse(gen).getroot(), ET.fromstring(xml(t))
        x.find("fvm/initialData/python").text = "init.py"
        if f.get("initialData", {}).get("parameters", "") == "":
            for q in (x, y):
                p = q.find("fvm/initialData/parameters")
                if p is not None: q.find("fvm/initialData").remove(p)
        for part in ("fvm", "uq") if uqt else ("fvm",):
            m = diff(canon(x.find(part)), canon(y.find(part)))
            ck.count("settings", len(list(y.find(part).iter())))
            if m: V("settings", "configuration of the interface: %s%s" % (part, m))
        # the output
        fa = {q for q in os.listdir(d) if q.endswith(".nc")}; fb = {q for q in os.listdir(e) if q.endswith(".nc")}
        if not (fa >= fb if style == "object2" else fa == fb): V("files", "other output files: %s" % sorted(fa ^ fb)[:5])
        out = {}
        for q in sorted(fa & fb):
            va, vb = nc.read(os.path.join(d, q))[0], nc.read(os.path.join(e, q))[0]; out[q] = vb
            ck.count("output_files")
            for v in set(va) | set(vb):
                if v not in va or v not in vb or not np.array_equal(va[v], vb[v], equal_nan=True): V("output:" + v, "%s: %s differs from the command line tool" % (q, v)); break
        # what the interface returns
        import pickle
        R = pickle.load(open(os.path.join(d, "result.pkl"), "rb"))
        if R["dimension"] != nd: V("dimension", "get_dimension gives %s for %s" % (R["dimension"], dim))
        if R["name"] != name: V("name", "get_name gives %r" % R["name"])
        lo, up = f["grid"]["lowerCorner"], f["grid"]["upperCorner"]
        mid = [np.array([lo[k] + (q + .5) * (up[k] - lo[k]) / dim[k] for q in range(dim[k])]) for k in range(3)]
        near = lambda a, c: np.shape(a) == np.shape(c) and np.allclose(a, c, rtol=1e-12, atol=1e-12)
        if not near(R["line"], mid[0]): V("line", "get_line_segment gives %s.. instead of the cell midpoints %s.." % (R["line"][:2], mid[0][:2]))
        gx, gy = np.meshgrid(mid[0], mid[1])
        if not (near(R["grid"][0], gx) and near(R["grid"][1], gy)): V("grid", "get_2d_grid is not the grid of cell midpoints")
        times = [f["endTime"] * ((k if int(w["writeInitialTimestep"]) else k + 1)) / int(w["numberOfSaves"]) for k in range(saves)]
        for k in range(saves):
            if abs(R["time"][k] - times[k]) > 1e-9: V("time", "get_time(%d) is %r, not %r" % (k, R["time"][k], times[k]))
        for (v, ts, s, st), a in R["data"].items():
            bn = w["basename"]
            if st: bn = ("mo" if st == "m2" else "mv") + "_" + st
            q = out.get("%s_%d.nc" % (bn, ts))
            if q is None: V("data-file", "no file %s_%d.nc" % (bn, ts)); break
            A = q[v] if v in q else q["sample_%d_%s" % (s + start, v)]          # [z, y, x]
            if v in q and s + start and not st: A = q["sample_%d_%s" % (s + start, v)]
            want = A[0, 0, :] if nd == 1 else A[0] if nd == 2 else A
            ck.count("returned_arrays")
            if a.shape != want.shape or not np.array_equal(a, want): V("data", "get_data(%s, %d, %d, %s) is not the content of %s_%d.nc" % (v, ts, s, st, bn, ts)); break
        ends = [R["data"][v, saves - 1, 0, st] for v in CONS[eq] for st in ([None] + stats[:1])]
        for k, (p, a) in enumerate(zip(R["plots"], ends)):
            ck.count("plots")
            if nd == 1 and not (near(p[0], mid[0]) and np.array_equal(p[1], a)): V("plot", "the plot does not show the data at the cell midpoints")
            if nd == 2:
                P = np.asarray(p[0]); cx = .5 * (P[:-1, :-1, 0] + P[1:, 1:, 0]); cy = .5 * (P[:-1, :-1, 1] + P[1:, 1:, 1])
                if not (near(cx, gx) and near(cy, gy) and np.array_equal(np.reshape(p[1], a.shape), a)): V("plot", "the plot does not show the data at the cell midpoints")
        ck.saw((style, eq, procs, multi, bool(w["writeInitialTimestep"]), tuple(sorted(kw))[:0]))
        ck.sample({"style": style, "equation": eq, "processes": procs, "files": len(out), "arrays": len(R["data"])})
        if not ck.keep: shutil.rmtree(top, ignore_errors=True)
    run.pool(one, range(700 if ck.thorough else 90))


if __name__ == "__main__":
    report.main(report.Check("C24", rule="number of (kind of program, equation, layout) combinations; one evaluation is one program run through the interface and repeated on the command line"), body)
