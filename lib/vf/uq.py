"""Uncertainty quantification runs: configuration, execution under a process layout and
the per-sample histories written by the recorder."""
import os
from . import run

OPT = ("--multi-x", "--multi-y", "--multi-z")


def tree(samples, params, stats=(), start=None, generator="auto"):
    """params: [(name, length, type, {setting: value})]; stats: [dict]."""
    t = {"samples": samples, "generator": generator}
    if start is not None: t["sampleStart"] = start
    t["parameters"] = {"parameter": [dict({"name": n, "length": l, "type": ty}, **k) for n, l, ty, k in params]}
    t["stats"] = {"stat": list(stats)} if stats else ""
    return t


def execute(b, c, cwd, multi=1, split=(1, 1, 1), threads=1, timeout=120, extra_env=None):
    """Runs alsuqcli on configuration c; returns (result, {(world rank, instance): log})."""
    c.write(cwd)
    cmd = [os.path.join(b, "alsuqcli/alsuqcli"), "config.xml", "--multi-sample", str(multi)]
    for o, s in zip(OPT, split): cmd += [o, str(s)]
    n = multi * split[0] * split[1] * split[2]
    res = run.execute(run.mpi(cmd, n), cwd, threads, timeout, extra_env)
    return res, run.logs(cwd)
