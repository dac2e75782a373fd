"""Reading netcdf files.  The netcdf library is not thread safe: one lock for all reads."""
import os, threading
import numpy as np
LOCK = threading.Lock()


def read(path):
    """{variable: (array in [z, y, x] order, or raw for others)}, {global attribute: value}, {dimension: size}"""
    import netCDF4
    with LOCK, netCDF4.Dataset(path) as ds:
        ds.set_auto_mask(False)
        out = {}
        for n, v in ds.variables.items():
            a = np.array(v[:])
            if sorted(v.dimensions) == ["x", "y", "z"]: a = a.transpose([v.dimensions.index(x) for x in "zyx"])
            out[n] = a
        return out, {a: ds.getncattr(a) for a in ds.ncattrs()}, {d: len(x) for d, x in ds.dimensions.items()}


def files(cwd):
    return sorted(f for f in os.listdir(cwd) if f.endswith(".nc"))
