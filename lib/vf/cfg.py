"""Generation of configuration files."""
import os
from xml.sax.saxutils import escape


def _xml(tag, v, ind=1):
    p = "  " * ind
    if v is None: return ""
    if isinstance(v, dict):
        return "%s<%s>\n%s%s</%s>\n" % (p, tag, "".join(_xml(k, x, ind + 1) for k, x in v.items()), p, tag)
    if isinstance(v, list):
        return "".join(_xml(tag, x, ind) for x in v)
    return "%s<%s>%s</%s>\n" % (p, tag, escape(fmt(v)), tag)


def fmt(v):
    if isinstance(v, bool): return "1" if v else "0"
    if isinstance(v, float): return repr(v)
    if isinstance(v, (tuple,)): return " ".join(fmt(x) for x in v)
    return str(v)


def recorder(lib, logfile="rec", saves=None, initial=False):
    d = {"type": "dll", "basename": "ignored", "library": lib, "make_parameters_function": "rec_make_parameters",
         "set_parameter_function": "rec_set_parameter", "delete_parameters_function": "rec_delete_parameters",
         "create_function": "rec_create", "delete_function": "rec_delete",
         "new_timestep_function": "rec_new_timestep", "end_timestep_function": "rec_end_timestep",
         "set_mpi_comm_function": "rec_set_mpi_comm", "needs_data_on_host_function": "rec_needs_host",
         "write_function": "rec_write", "logfile": logfile}
    if saves is not None:
        d["numberOfSaves"] = saves
        if initial: d["writeInitialTimestep"] = True
    return d


class Config:
    """A run configuration; fields map one to one to the XML."""

    def __init__(self, **k):
        self.name, self.platform, self.boundary, self.flux = "run", "cpu", "periodic", "hll3"
        self.equation, self.reconstruction, self.cfl, self.integrator = "euler1", "none", "auto", "auto"
        self.gamma, self.endTime = None, 0.1
        self.lower, self.upper, self.dim = (0.0, 0.0, 0.0), (1.0, 1.0, 1.0), (32, 1, 1)
        self.script, self.parameters = "u = 1.0\n", None
        self.writer, self.functionals, self.diffusion, self.uq = None, None, None, None
        self.drop = ()
        self.extra = {}
        self.__dict__.update(k)

    def copy(self, **k):
        c = Config(); c.__dict__.update(self.__dict__); c.__dict__.update(k); return c

    def tree(self):
        f = {"name": self.name, "platform": self.platform, "boundary": self.boundary, "flux": self.flux,
             "endTime": self.endTime, "equation": self.equation}
        if self.gamma is not None: f["equationParameters"] = {"gamma": self.gamma}
        f.update({"reconstruction": self.reconstruction, "cfl": self.cfl, "integrator": self.integrator,
                  "initialData": {"python": "init.py"}})
        if self.parameters:
            f["initialData"]["parameters"] = {"parameter": [
                {"name": n, "length": len(v), "values": {"value": list(v)}} if isinstance(v, (list, tuple)) else
                {"name": n, "length": 1, "value": v} for n, v in self.parameters]}
        if self.writer: f["writer"] = self.writer
        f["grid"] = {"lowerCorner": self.lower, "upperCorner": self.upper, "dimension": self.dim}
        if self.diffusion: f["diffusion"] = {"name": self.diffusion[0], "reconstruction": self.diffusion[1]}
        if self.functionals: f["functionals"] = {"functional": self.functionals}
        f.update(self.extra)
        for k in self.drop: f.pop(k, None)
        t = {"fvm": f}
        if self.uq: t["uq"] = self.uq
        return t

    def xml(self):
        return "<config>\n" + "".join(_xml(k, v) for k, v in self.tree().items()) + "</config>\n"

    def write(self, cwd, fname="config.xml"):
        os.makedirs(cwd, exist_ok=True)
        with open(os.path.join(cwd, fname), "w") as f: f.write(self.xml())
        with open(os.path.join(cwd, "init.py"), "w") as f: f.write(self.script)
        return fname
